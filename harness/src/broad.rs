//! Surroundings that every block property has to hold in: one object of each kind at each place among many
//! others, short sequences of all kinds, and each kind at each depth among several neighbours. Each check judges
//! these blocks by what its own property says.

use crate::engine::{digits, product, Bad, Engine, Runner, Seqs};
use crate::model::{hex, tlv, Op, Settings};

pub type Judge<'a> = &'a (dyn Fn(&mut Runner, Op, &str, &Settings) -> Result<(), Bad> + Sync);
pub type JudgeObjects<'a> = &'a (dyn Fn(&mut Runner, Form, &[Vec<u8>]) -> Result<(), Bad> + Sync);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
	Ber,
	BerUnsorted,
	/// inside one constructed object
	Nested,
	/// inside two, unsorted
	Nested2,
	Ingenico,
	/// unsorted, every field behind one that is skipped
	Skipping,
	/// text data where the value is text
	IngenicoText,
	AutoBer,
	AutoIngenico,
}

/// One object of each kind. The invalid ones are well-formed but hold a value that is refused.
pub fn specials() -> Vec<Vec<u8>> {
	let mut iad = vec![0x0F, 0xA6, 0x02, 0x53, 0xA4, 0x28, 0x04, 0x01, 1, 2, 3, 4, 5, 6, 7, 8, 0x0F];
	iad.extend([0xB7; 15]);
	let long: Vec<u8> = (0..300u32).map(|i| (i * 7 + 3) as u8).collect();
	let kid = |v: u8| tlv(&[0xC1], &[v]);
	vec![
		tlv(&[0x5A], &[0x47, 0x61]),
		tlv(&[0x50], &[]),
		tlv(&[0x95], &[0x84, 0x08, 0x00, 0x80, 0x10]),
		tlv(&[0x9B], &[0xE8, 0x00]),
		tlv(&[0x9F, 0x10], &iad),
		tlv(&[0x9F, 0x10], &[0x06, 0x01, 0x0A]),
		tlv(&[0x8E], &[0, 0, 0, 0, 0, 0, 0, 0, 0x42, 0x01, 0x1F, 0x06]),
		tlv(&[0x9F, 0x34], &[0x5E, 0x03, 0x01]),
		tlv(&[0x5A], b"****"),
		tlv(&[0x70], &[tlv(&[0x9F, 0x26], &[9]), tlv(&[0x5A], &[8])].concat()),
		tlv(&[0x7F, 0x21], &kid(7)),
		tlv(&[0x70], &[0xC1, 0x04, 0x00]),
		tlv(&[0xA5], &[]),
		tlv(&[0x61], b"***"),
		tlv(&[0x6F], &[tlv(&[0x84], b"**"), kid(1)].concat()),
		tlv(&[0xDF, 0x81, 0x01], &[0xAA, 0x20]),
		tlv(&[0x8A], b"Z9"),
		tlv(&[0xC3], &long),
		vec![0x57, 0x83, 0x00, 0x00, 0x02, 0x41, 0x7F],
		tlv(&[0xE2], &[tlv(&[0xC4], &long[..150]), kid(2)].concat()),
		tlv(&[0xE3], &tlv(&[0xE4], &tlv(&[0xE5], &[kid(3), tlv(&[0x9B], &[0x80, 0])].concat()))),
		tlv(&[0x00], &[0x33]),
		tlv(&[0x5F, 0x30], &[0x02, 0x01]),
		tlv(&[0x9F, 0x40], &[0x60, 0x00, 0xF0, 0xA0, 0x01]),
		tlv(&[0x9F, 0x0E], &[0x00, 0x10, 0x00, 0x00, 0x00]),
		// invalid
		tlv(&[0x95], &[1, 2, 3, 4]),
		tlv(&[0x8A], &[0x30]),
		tlv(&[0x9F, 0x35], &[0x00]),
		tlv(&[0x70], &tlv(&[0x9B], &[1])),
		tlv(&[0xE6], &[kid(1), tlv(&[0xE7], &[kid(2), tlv(&[0x9F, 0x34], &[0x1F, 0, 0xFF])].concat()), kid(4)].concat()),
	]
}

/// The j-th object of a background.
fn background(kind: usize, j: usize) -> Vec<u8> {
	let v = (j % 48) as u8;
	match kind {
		0 => tlv(&[0x9F, 0x26], &[0x40 + v, v]),
		1 => match j % 7 {
			0 => tlv(&[0x5A], &[0x10, v]),
			1 => tlv(&[0x95], &[0x80, 0, v, 0, 0]),
			2 => tlv(&[0xE1], &tlv(&[0xC1], &[v])),
			3 => tlv(&[0x57], b"**"),
			4 => tlv(&[0x50], &[]),
			5 => tlv(&[0x9B], &[v << 3, 0]),
			_ => tlv(&[0xDF, 0x20], &[v]),
		},
		_ => tlv(&[0xDF, 0x7F - (j % 64) as u8], &[v, 1]),
	}
}

fn ingenico_field(o: &[u8], text: bool) -> String {
	let (t, v) = split_tlv_any(o);
	if v.len() >= 2 && v.iter().all(|b| *b == b'*') {
		return format!("T{}:{:02X}:h{}", hex(&t), v.len(), "**".repeat(v.len()));
	}
	let n = if v.len() < 256 { format!("{:02X}", v.len()) } else { format!("{:04X}", v.len()) };
	if text && v.is_ascii() && !v.contains(&0) {
		return format!("T{}:{n}:a{}", hex(&t), String::from_utf8_lossy(&v));
	}
	format!("T{}:{n}:h{}", hex(&t), hex(&v))
}
fn split_tlv_any(o: &[u8]) -> (Vec<u8>, Vec<u8>) {
	let mut n = 1;
	if o[0] & 0x1F == 0x1F {
		while o[n] & 0x80 != 0 {
			n += 1;
		}
		n += 1;
	}
	let l = o[n];
	let head = n + 1 + if l >= 0x80 { (l - 0x80) as usize } else { 0 };
	(o[..n].to_vec(), o[head..].to_vec())
}

/// The objects of a well-formed block, one by one.
fn top_objects(mut b: &[u8]) -> Vec<Vec<u8>> {
	let mut v = Vec::new();
	while !b.is_empty() {
		let (t, _) = split_tlv_any(b);
		let l = b[t.len()] as usize;
		let (head, n) = if l < 0x80 {
			(t.len() + 1, l)
		} else {
			let k = l - 0x80;
			let n = b[t.len() + 1..t.len() + 1 + k].iter().fold(0, |n, x| n << 8 | *x as usize);
			(t.len() + 1 + k, n)
		};
		v.push(b[..head + n].to_vec());
		b = &b[head + n..];
	}
	v
}

/// These objects as an input in the given form.
pub fn input(form: Form, objs: &[Vec<u8>]) -> (Op, String, Settings) {
	let on = Settings::default();
	let off = Settings {
		sort: false,
		..Settings::default()
	};
	let flat = objs.concat();
	let fields = |text: bool, sep: &str| -> String {
		let f: Vec<String> = objs.iter().map(|o| ingenico_field(o, text)).collect();
		f.join(sep)
	};
	match form {
		Form::Ber => (Op::Ber, hex(&flat), on),
		Form::BerUnsorted => (Op::Ber, hex(&flat), off),
		Form::Nested => (Op::Ber, hex(&tlv(&[0xEF], &flat)), on),
		Form::Nested2 => (Op::Ber, hex(&tlv(&[0xFF, 0x42], &tlv(&[0x77], &flat))), off),
		Form::Ingenico => (Op::Ingenico, fields(false, " "), on),
		Form::Skipping => (
			Op::Ingenico,
			format!("C95:01:h00,{}", fields(false, ";D5A:02:aT5,")),
			off,
		),
		Form::IngenicoText => (Op::Ingenico, fields(true, ","), off),
		Form::AutoBer => (Op::Auto, hex(&flat), on),
		Form::AutoIngenico => (Op::Auto, fields(false, "\n"), off),
	}
}

/// Every (n, p): one object at place p among n others.
fn places() -> Vec<(usize, usize)> {
	let mut v = Vec::new();
	for n in 0..=24 {
		for p in 0..=n {
			v.push((n, p));
		}
	}
	for n in [31usize, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1000] {
		let mut ps = vec![0, 1, n / 2, n - 2, n - 1, n];
		ps.dedup();
		v.extend(ps.into_iter().map(|p| (n, p)));
	}
	v
}

pub fn surroundings(e: &mut Engine, forms: &[Form], judge: Judge) {
	surroundings_of(e, forms, true, &|r, f, objs| {
		let (op, t, s) = input(f, objs);
		judge(r, op, &t, &s)
	});
}
/// For a known tag, tags that have something in common with it.
fn relatives(t: &[u8]) -> Vec<Vec<u8>> {
	let mut v: Vec<Vec<u8>> = Vec::new();
	let (first, last) = (t[0], t[t.len() - 1]);
	let open = first & 0x1F == 0x1F;
	if open {
		// the same first and last byte, and longer
		for m in [0x80u8, 0x81, 0xFF] {
			v.push(vec![first, m, last]);
		}
		v.push(vec![first, 0x81, 0x82, last]);
		// an extension
		v.push(vec![first, last | 0x80, 0x00]);
		v.push(vec![first, last | 0x80, last]);
		// the last byte, or what comes before it, by itself
		if last & 0x1F != 0x1F {
			v.push(vec![last]);
			v.push(vec![last ^ 0x80]);
		}
		for f in [0x1Fu8, 0x3F, 0x5F, 0x7F, 0x9F, 0xBF, 0xDF, 0xFF] {
			v.push(vec![f, last]);
		}
		v.push(vec![first, last ^ 0x40]);
		v.push(vec![first, (last + 1) & 0x7F]);
		v.push(vec![first, last.wrapping_sub(1) & 0x7F]);
	} else {
		for f in [0x9Fu8, 0x5F, 0xBF, 0x7F, 0x1F, 0xDF] {
			v.push(vec![f, first & 0x7F]);
			v.push(vec![f, 0x81, first & 0x7F]);
		}
		for x in [1u8, 0x20, 0x40, 0x80, 0x60, 0xC0, 0xE0] {
			if (first ^ x) & 0x1F != 0x1F {
				v.push(vec![first ^ x]);
			}
		}
	}
	v.retain(|x| x != t);
	v
}
/// A value for a tag that it can have.
fn fitting(t: &[u8], n: usize, k: u8) -> Vec<u8> {
	let plain: Vec<u8> = (0..n).map(|j| k.wrapping_mul(16).wrapping_add(j as u8)).collect();
	if model_accepts(t, &plain) {
		return plain;
	}
	crate::common::valid_value(t, n)
		.or_else(|| (0..40).find_map(|n| crate::common::valid_value(t, n)))
		.expect("a valid value")
}
fn model_accepts(t: &[u8], v: &[u8]) -> bool {
	crate::model::interpret(t, v).is_ok()
}
/// Every known tag beside tags that resemble it.
fn kindred(e: &mut Engine, forms: &[Form], judge: JudgeObjects) {
	let known = crate::spec::TAG_NAMES;
	e.family(
		"tags that resemble each other",
		"every known tag beside each of up to 17 tags that share its first and last byte, extend it, are a part of it, or differ in one bit: this before that, that before this, both twice, one inside the other's neighbour, in one of the forms each",
		known.len() as u64,
		|r, i| {
			let t = known[i as usize].0;
			for (k, u) in relatives(t).iter().enumerate() {
				let k = k as u8;
				let a = tlv(t, &fitting(t, 1 + k as usize % 3, k));
				let b = tlv(u, &fitting(u, 1 + k as usize % 2, 3 + k));
				let f = |n: usize| forms[(i as usize + k as usize + n) % forms.len()];
				judge(r, f(0), &[a.clone(), b.clone()])?;
				judge(r, f(0), &[b.clone(), a.clone()])?;
				judge(r, f(1), &[a.clone(), b.clone(), a.clone(), b.clone()])?;
				judge(r, f(2), &[tlv(&[0xE1], &b), a.clone()])?;
				judge(r, f(2), &[tlv(&[0xE1], &a), b.clone(), tlv(&[0xE2], &tlv(&[0xE3], &a))])?;
			}
			Ok(())
		},
	);
}
/// Tags and values as cards, terminals and hosts exchange them. Values that are masks, and a few unknown tags, included.
pub const OCCURRING: &[(&str, &str)] = &[
	("42", "476173"), ("42", "541333"), ("42", "374245"),
	("4F", "A0000000031010"), ("4F", "A0000000041010"), ("4F", "A000000025010801"), ("4F", "A0000001523010"), ("4F", "A0000000651010"),
	("4F", "A000000333010101"), ("4F", "A0000002771010"), ("4F", "A0000006581010"), ("4F", "A0000005241010"), ("4F", "D27600002547410100"),
	("50", "56495341"), ("50", "56495341204352454449545F"), ("50", "4D617374657243617264"), ("50", "4D61657374726F"), ("50", "416D65782000"),
	("50", "44454249542020202020202020202020"), ("50", "E9E8E0"),
	("57", "4761739001010010D22122011143804400000F"), ("57", "5413330089604111D14122010123409172"), ("57", "4761739001010010D221220111438044"),
	("57", "374245001751006D150412150412345F"), ("57", "00"),
	("5A", "4761739001010010"), ("5A", "5413330089604111"), ("5A", "374245001751006F"), ("5A", "6011000990139424"), ("5A", "3528000700000000"),
	("5A", "6200000000000005FFFF"), ("5A", "FFFFFFFFFFFFFFFF"), ("5A", "0000000000000000"), ("5A", "2A2A2A2A2A2A2A2A"), ("5A", "4761732A2A2A0010"),
	("5F20", "444F452F4A4F484E"), ("5F20", "202F"), ("5F20", "5649534120414351554952455220544553542F434152442030"),
	("5F24", "221231"), ("5F24", "991231"), ("5F24", "000101"), ("5F24", "240229"), ("5F24", "491231"), ("5F24", "501231"), ("5F24", "FFFFFF"),
	("5F25", "090701"), ("5F25", "950101"), ("5F25", "300101"), ("5F25", "000000"),
	("5F28", "0840"), ("5F28", "0124"), ("5F28", "0826"), ("5F28", "0056"), ("5F28", "0999"),
	("5F2A", "0840"), ("5F2A", "0978"), ("5F2A", "0124"), ("5F2A", "0392"), ("5F2A", "0000"),
	("5F2D", "656E"), ("5F2D", "656E66726465"), ("5F2D", "454E"), ("5F2D", "7A68656E"),
	("5F30", "0201"), ("5F30", "0101"), ("5F30", "0220"), ("5F30", "0999"), ("5F30", "0000"), ("5F30", "0601"), ("5F30", "0721"),
	("5F34", "00"), ("5F34", "01"), ("5F34", "99"),
	("5F36", "00"), ("5F36", "02"), ("5F36", "03"),
	("5F50", "687474703A2F2F7777772E6578616D706C652E636F6D"), ("5F50", "7777772E"),
	("5F53", "44453839333730343030343430353332303133303030"), ("5F54", "4445555444454646"),
	("5F55", "5553"), ("5F55", "4341"), ("5F56", "555341"), ("5F56", "43414E"), ("5F57", "00"), ("5F57", "10"), ("5F57", "20"), ("5F57", "30"),
	("80", "1C0008010100100103001801020020010101"), ("80", "80"), ("80", "40002B1122334455667788"),
	("81", "00000000"), ("81", "000003E8"), ("81", "FFFFFFFF"),
	("82", "0000"), ("82", "5C00"), ("82", "1C00"), ("82", "3C00"), ("82", "7C00"), ("82", "3900"), ("82", "1980"), ("82", "2000"), ("82", "FFFF"), ("82", "0080"),
	("83", "00"), ("83", "2700000000000000"), ("83", "02030405"), ("84", "325041592E5359532E4444463031"), ("84", "315041592E5359532E4444463031"),
	("84", "A0000000031010"), ("84", "A0000000043060"), ("84", "A00000000401"), ("84", "A0000000032010"),
	("86", "8424000008"), ("86", "841E0000081122334455667788"), ("86", "04DA9F580902"), ("87", "01"), ("87", "02"), ("87", "0F"), ("87", "81"), ("87", "00"),
	("88", "01"), ("88", "0A"), ("88", "1E"), ("89", "313233343536"), ("89", "303030303030"), ("89", "202020202020"),
	("8A", "3030"), ("8A", "3035"), ("8A", "3531"), ("8A", "5931"), ("8A", "5A31"), ("8A", "5933"), ("8A", "5A33"), ("8A", "3635"), ("8A", "3535"), ("8A", "3931"), ("8A", "3141"), ("8A", "0000"),
	("8C", "9F02069F03069F1A0295055F2A029A039C019F3704"), ("8C", "9F02069F03069F1A0295055F2A029A039C019F37049F35019F45029F4C089F3403"),
	("8D", "8A029F02069F03069F1A0295055F2A029A039C019F3704"), ("8D", "910A8A0295059F37049F4C08"), ("97", "9F02065F2A029A039C0195059F3704"),
	("8E", "000000000000000042015E0342031F00"), ("8E", "00000000000000001E0302031F00"), ("8E", "00000000000000004103420342035E031F00"), ("8E", "000000000000000000"  /* half a rule */),
	("8E", "0000138800002710440641031E031F03"), ("8E", "00000000000000005F031F03"), ("8E", "0000000000000000"), ("8E", "00000064000003E8020642090205"),
	("8F", "92"), ("8F", "94"), ("8F", "F1"), ("8F", "FA"), ("8F", "00"),
	("90", "6A028F88B1C40A2B34A3E2A4F4C75E6F3B0F9BFB4F1A3C8D00112233445566778899AABBCCDDEEFF"), ("91", "1122334455667788"), ("91", "11223344556677883030"), ("91", "00000000000000000012"), ("91", "1A2B3C4D00820000"),
	("92", "33F5E4447D4A32E5936E5A1339329BB4E8DD8BF004CE4428E24D0866FAEFD2348809D71D"), ("93", "6DFA"),
	("94", "08010100"), ("94", "080101001001030018010200"), ("94", "1801020120010400"), ("94", "0801"),
	("95", "0000000000"), ("95", "8000000000"), ("95", "0080008000"), ("95", "8000048000"), ("95", "0000008000"), ("95", "4040000000"), ("95", "0880040000"), ("95", "FFFFFFFFFF"), ("95", "00000000"),
	("98", "3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B3B"), ("99", "2412341FFFFFFFFF"), ("99", "1122334455667788"),
	("9A", "221015"), ("9A", "991231"), ("9A", "000101"), ("9A", "000000"), ("9A", "240229"), ("9A", "700101"), ("9A", "380119"),
	("9B", "0000"), ("9B", "E800"), ("9B", "F800"), ("9B", "6800"), ("9B", "FC00"), ("9B", "FFFF"), ("9B", "00"),
	("9C", "00"), ("9C", "01"), ("9C", "09"), ("9C", "20"), ("9C", "21"), ("9C", "30"), ("9C", "31"), ("9C", "60"), ("9C", "92"), ("9C", "FF"),
	("9D", "315041592E5359532E4444463031"),
	("9F01", "000000000000"), ("9F01", "001234567890"), ("9F02", "000000000000"), ("9F02", "000000000001"), ("9F02", "000000010000"), ("9F02", "999999999999"), ("9F02", "00000001000A"),
	("9F03", "000000000000"), ("9F03", "000000001000"), ("9F04", "00000000"), ("9F05", "0102"), ("9F06", "A0000000031010"), ("9F06", "A0000000041010"), ("9F06", "A00000002501"), ("9F06", "A0000003330101"), ("9F06", "A0000002771010"), ("9F06", "A0000000651010"), ("9F06", "A0000001523010"), ("9F06", "F0000000031010"),
	("9F07", "FF00"), ("9F07", "FFC0"), ("9F07", "AB80"), ("9F07", "0000"), ("9F08", "0002"), ("9F08", "008C"), ("9F08", "0096"), ("9F09", "0002"), ("9F09", "008C"), ("9F09", "0096"),
	("9F0B", "414243"), ("9F0D", "F040AC8000"), ("9F0D", "BC50BC8800"), ("9F0D", "FC50AC8800"), ("9F0E", "0010000000"), ("9F0E", "0000000000"), ("9F0E", "0400000000"), ("9F0F", "F040BC8000"), ("9F0F", "F870A49800"), ("9F0F", "FFFFFFFFFF"), ("9F0F", "F870A498"),
	("9F10", "06010A03A00000"), ("9F10", "06011203A0B800"), ("9F10", "0110A00003220000000000000000000000FF"), ("9F10", "0110A50003220000000000000000000000FF"), ("9F10", "06020103940000"), ("9F10", "07010103A0A802010A010000000000"), ("9F10", "0FA501A030F8000000000000000000000F010203040506070809101112131415"), ("9F10", "0FA600A010C8040000112233445566770F000000000000000000000000000000"), ("9F10", "1F220100A00000000056495341303030303030303030303030303030303030303030"),
	("9F11", "01"), ("9F11", "05"), ("9F12", "43524544495420434152440A"), ("9F12", "56697361"), ("9F13", "0000"), ("9F13", "0025"), ("9F14", "00"), ("9F14", "03"), ("9F23", "00"), ("9F23", "05"),
	("9F15", "5999"), ("9F15", "5411"), ("9F15", "6011"), ("9F15", "0000"), ("9F16", "202020202020202020202020202020"), ("9F16", "313233343536373839303132333435"), ("9F17", "00"), ("9F17", "01"), ("9F17", "03"), ("9F17", "0F"), ("9F18", "80000000"),
	("9F1A", "0840"), ("9F1A", "0124"), ("9F1A", "0276"), ("9F1A", "0000"), ("9F1B", "00000000"), ("9F1B", "00002710"), ("9F1C", "3132333435363738"), ("9F1C", "0000000000000000"), ("9F1D", "6C00800000000000"), ("9F1D", "2CB8008000000000"), ("9F1E", "3132333435363738"), ("9F1E", "4445303030303031"), ("9F1F", "303130323033"), ("9F20", "0102"), ("9F21", "000000"), ("9F21", "235959"), ("9F21", "120000"), ("9F21", "240000"),
	("9F22", "92"), ("9F22", "00"), ("9F26", "D34F2A6B5C8E9F10"), ("9F26", "0000000000000000"), ("9F26", "FFFFFFFFFFFFFFFF"), ("9F27", "00"), ("9F27", "40"), ("9F27", "80"), ("9F27", "C0"), ("9F27", "01"), ("9F2D", "5555"), ("9F2E", "03"), ("9F2F", "00"), ("9F32", "03"), ("9F32", "010001"),
	("9F33", "E0F8C8"), ("9F33", "E0B0C8"), ("9F33", "6028C8"), ("9F33", "E0E1C8"), ("9F33", "000000"), ("9F33", "0008C8"), ("9F33", "FFFFFF"), ("9F34", "1E0300"), ("9F34", "420300"), ("9F34", "1F0002"), ("9F34", "1F0302"), ("9F34", "410302"), ("9F34", "440302"), ("9F34", "3F0000"), ("9F34", "000000"), ("9F34", "010002"), ("9F34", "2F0002"),
	("9F35", "11"), ("9F35", "14"), ("9F35", "21"), ("9F35", "22"), ("9F35", "25"), ("9F35", "34"), ("9F35", "36"), ("9F35", "00"), ("9F36", "0000"), ("9F36", "0001"), ("9F36", "00FF"), ("9F36", "FFFF"), ("9F37", "00000000"), ("9F37", "3A5C7E90"), ("9F38", "9F1A02"), ("9F38", "9F66049F02069F03069F1A0295055F2A029A039C019F3704"), ("9F38", "83"),
	("9F39", "05"), ("9F39", "07"), ("9F39", "80"), ("9F39", "90"), ("9F39", "91"), ("9F39", "02"), ("9F39", "00"), ("9F39", "01"), ("9F3A", "00000000"), ("9F3B", "0978"), ("9F3C", "0840"), ("9F3D", "02"), ("9F40", "6000F0A001"), ("9F40", "F000F0A001"), ("9F40", "FF80F0F001"), ("9F40", "0000000000"), ("9F40", "7E0000A001"), ("9F41", "00000001"), ("9F41", "00000000"), ("9F41", "0001"), ("9F42", "0840"), ("9F42", "0978"), ("9F43", "02"), ("9F44", "02"), ("9F45", "DAC0"), ("9F46", "30"), ("9F47", "03"), ("9F47", "010001"), ("9F48", "0102"), ("9F49", "9F3704"), ("9F4A", "82"), ("9F4B", "6A"), ("9F4C", "1122334455667788"), ("9F4D", "0B0A"), ("9F4E", "4143515549524552204C4F434154494F4E"), ("9F4E", "0000000000"), ("9F4F", "9A039F21035F2A029F02069F4E149F3602"),
	// not in the EMV data dictionary
	("9F66", "36004000"), ("9F66", "B6200000"), ("9F6C", "3000"), ("9F6E", "20700000"), ("9F7C", "0102030405"), ("9F7F", "4790"), ("9F5D", "000000000000"), ("9F69", "0112345678"), ("9F53", "52"), ("9F24", "5630303130303133303136"), ("9F19", "112233"), ("DF01", "01"), ("DF04", "A0"), ("DF8101", "0000"), ("DF8129", "30F0F000A0F0FF00"), ("DF8115", "000000FF0000"), ("DF812D", "000013"), ("FF01", "02"), ("C1", "1122"), ("C4", "4142"), ("D2", "01"), ("DF30", ""), ("56", "42353431333333303038393630343131315E202F5E"), ("9F6B", "5413330089604111D1412201"), ("9F60", "0000"), ("9F61", "3A2F"), ("9F62", "000000000E0E"), ("BF10", ""), ("00", "00"), ("30", ""), ("61", ""), ("A5", ""), ("70", "90"), ("71", "9F1804"), ("72", "86"),
];
/// Whole answers of cards and messages of terminals.
pub const WHOLE: &[&str] = &[
	"6F1A840E315041592E5359532E4444463031A5088801025F2D02656E",
	"6F2F840E325041592E5359532E4444463031A51DBF0C1A61184F07A0000000031010500A564953412044454249548701019000",
	"6F3B8407A0000000031010A530500B56495341204352454449548701015F2D0266729F12074352454449544F9F1101019F38039F1A02BF0C059F4D020B0A",
	"70375F201A56495341204143515549524552205445535420434152442030318C159F02069F03069F1A0295055F2A029A039C019F37045F300202019F1F023030",
	"77299F2701809F360200019F2608D34F2A6B5C8E9F109F10120110A00003220000000000000000000000FF9000",
	"8012800001D34F2A6B5C8E9F1006010A03A00000",
	"771282021980940C0801010010010301180102009000",
	"9F0206000000010000820219809F360200019F2701809F3303E0F8C89F34031E03009F3501229F37043A5C7E909F2608D34F2A6B5C8E9F109F100706010A03A0000095050080008000 9A03221015 9C0100 5F2A020840 9F1A020840 9F0306000000000000 5A084761739001010010 5F340101 8A023030 9B02E800",
	"9F2701009F3602FFFF8A025A3395058000048000 9B02F800 9F34033F0000 710F9F1804800000008609841E000004AABBCCDD 72099F180400000001 8600",
	"5713476173900101001 0D22122011143804400000F5F24032212315F250309070 15A0847617390010100105F3401018E10000000000000000042015E0342031F009F0D05F040AC80009F0E0500100000009F0F05F040BC80005F280208409F4A01829F0702FF009F080200 96",
	"61 29 4F07A0000000031010 5004 56495341 870101 9F2A0102 61 0F 4F07A0000000041010 50024D43 870102",
	"9F39010595050000000000 57082A2A2A2A2A2A2A2A 5A082A2A2A2A2A2A2A2A 5F20042A2A2A2A 5F24032A2A2A 9F1F022A2A",
	"E1818E5A0847617390010100105F2403221231E2810A9F3602000195050000000000",
	"",
];
fn object(tag: &str, value: &str) -> Vec<u8> {
	tlv(&crate::common::hex_bytes(tag), &crate::common::hex_bytes(value))
}
/// Values that a known tag can have: of every length and of several kinds, or those that occur.
fn catalogue(e: &mut Engine, forms: &[Form], judge: JudgeObjects) {
	let known = crate::spec::TAG_NAMES;
	let n = known.len() as u64;
	e.family(
		"every pair of known tags",
		"every ordered pair of known tags with a valid value each, the one before the other, with an unknown object between them, and one within the other if it is constructed; in one of the forms each",
		n * n,
		|r, i| {
			let d = digits(i, &[n, n]);
			let (t, u) = (known[d[0]].0, known[d[1]].0);
			let f = |k: usize| forms[(d[0] + d[1] + k) % forms.len()];
			let a = tlv(t, &fitting(t, 1 + d[1] % 8, d[1] as u8));
			let b = tlv(u, &fitting(u, 1 + d[0] % 9, d[0] as u8));
			if t[0] & 0x20 != 0 {
				judge(r, f(1), &[tlv(t, &b), a.clone()])?;
			}
			if (d[0] + d[1]) % 3 == 0 {
				return judge(r, f(0), &[a, tlv(&[0xC7], &[1]), b]);
			}
			judge(r, f(0), &[a, b])
		},
	);
	e.family(
		"every pair of known tags with one value",
		"every ordered pair of known tags, the one right before the other with the same value of every size up to 10, 16 and 32 that both can have, in one of the forms each",
		n * n,
		|r, i| {
			let d = digits(i, &[n, n]);
			let (t, u) = (known[d[0]].0, known[d[1]].0);
			let mut objs: Vec<Vec<u8>> = Vec::new();
			for len in (1..=10).chain([16, 32]) {
				for v in [
					(0..len).map(|j| (j + 1 + len) as u8).collect::<Vec<u8>>(),
					vec![0; len],
					(0..len).map(|j| b'0' + (j as u8 + len as u8) % 10).collect(),
				] {
					if model_accepts(t, &v) && model_accepts(u, &v) {
						objs.push(tlv(t, &v));
						objs.push(tlv(u, &v));
						break;
					}
				}
			}
			if objs.is_empty() {
				return Ok(());
			}
			judge(r, forms[(d[0] * 3 + d[1]) % forms.len()], &objs)
		},
	);
	let fills = 6u64;
	let top = e.pick(72u64, 300);
	let group = 8u64;
	let radix = [n, fills, top.div_ceil(group)];
	e.family(
		"known tags with values of every length",
		"every known tag x every value length up to the bound that it can have x zeros, ones, text, decimal digits, a count, text of digits; eight to a block, in one of the forms each",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let t = known[d[0]].0;
			let objs: Vec<Vec<u8>> = (d[2] * group as usize..((d[2] + 1) * group as usize).min(top as usize))
				.filter_map(|len| {
					let v: Vec<u8> = (0..len)
						.map(|j| match d[1] {
							0 => 0,
							1 => 0xFF,
							2 => b'A' + (j % 23) as u8,
							3 => [0x12, 0x34, 0x56, 0x78, 0x90][j % 5],
							4 => (j + 1) as u8,
							_ => b'0' + (j % 10) as u8,
						})
						.collect();
					model_accepts(t, &v).then(|| tlv(t, &v))
				})
				.collect();
			if objs.is_empty() {
				return Ok(());
			}
			judge(r, forms[(d[0] + d[1] + d[2]) % forms.len()], &objs)
		},
	);
	let nf = forms.len() as u64;
	e.family(
		"values that occur",
		"some 330 objects as cards, terminals and hosts exchange them, alone, before and behind another, and within a template, in each form; and whole answers of cards",
		OCCURRING.len() as u64 * nf + WHOLE.len() as u64 * nf,
		|r, i| {
			let f = forms[(i % nf) as usize];
			let k = (i / nf) as usize;
			if k >= OCCURRING.len() {
				let b = crate::common::hex_bytes(&WHOLE[k - OCCURRING.len()].replace(' ', ""));
				let t = hex(&b);
				let ok = crate::model::expect(Op::Ber, t.as_bytes(), &Settings::default());
				if ok.result.is_err() || ok.ambiguous || t.is_empty() {
					return Ok(());
				}
				return judge(r, f, &top_objects(&b));
			}
			let o = object(OCCURRING[k].0, OCCURRING[k].1);
			let (next, other) = (OCCURRING[(k + 1) % OCCURRING.len()], OCCURRING[(k * 7 + 3) % OCCURRING.len()]);
			let (a, b) = (object(next.0, next.1), object(other.0, other.1));
			judge(r, f, &[o.clone()])?;
			judge(r, f, &[o.clone(), a])?;
			judge(r, f, &[b.clone(), o.clone()])?;
			judge(r, f, &[tlv(&[0x77], &[o, b].concat())])
		},
	);
}
pub fn surroundings_of(e: &mut Engine, forms: &[Form], depths: bool, judge: JudgeObjects) {
	let sp = specials();
	let at = places();
	let nf = forms.len() as u64;
	let nb = e.pick(1u64, 3);
	let radix = [sp.len() as u64, at.len() as u64, nf, nb];
	e.family(
		"one object among many",
		"30 kinds of object (5 of them invalid) at every place among 0..24 others and at 6 places among 31..1000, x the forms of input (one each among more than 24, thorough: all) x one (all) of 3 backgrounds",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let (n, p) = at[d[1]];
			// quick: one form each in larger surroundings
			if nb == 1 && n > 24 && (d[0] + p) % forms.len() != d[2] {
				return Ok(());
			}
			let bg = if nb == 1 { (d[0] + n + p + d[2]) % 3 } else { d[3] };
			let mut objs: Vec<Vec<u8>> = (0..n).map(|j| background(bg, j)).collect();
			objs.insert(p, sp[d[0]].clone());
			judge(r, forms[d[2]], &objs)
		},
	);

	let few: Vec<&Vec<u8>> = [0usize, 1, 2, 8, 9, 11, 14, 15, 4, 28].iter().map(|k| &sp[*k]).collect();
	let q = Seqs {
		k: few.len() as u64,
		lo: 1,
		hi: e.pick(4, 5),
	};
	let every = e.pick(1u64, nf);
	e.family(
		"sequences with repeats",
		"every sequence of 10 kinds of object up to the bound, x one (all) of the forms",
		q.count() * every,
		|r, i| {
			let objs: Vec<Vec<u8>> = q.get(i / every).iter().map(|k| few[*k].clone()).collect();
			let f = if every == 1 { forms[(i % nf) as usize] } else { forms[(i % every) as usize] };
			judge(r, f, &objs)
		},
	);
	kindred(e, forms, judge);
	catalogue(e, forms, judge);
	if !depths {
		return;
	}

	let deep = e.pick(13u64, 60);
	let radix = [sp.len() as u64, deep, 7, 3];
	e.family(
		"surroundings by depth",
		"30 kinds of object at each depth up to the bound x 7 kinds of neighbours at each level x 3 kinds of parents",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut b = sp[d[0]].clone();
			for level in 0..d[1] {
				let small = tlv(&[0xC1], &[level as u8]);
				let big = tlv(&[0xC2], &[level as u8, 0x30]);
				b = match d[2] {
					0 => b,
					1 => [small, b].concat(),
					2 => [b, small].concat(),
					3 => [big, b, small].concat(),
					4 => [tlv(&[0xE9], &[0xC1, 0x09]), b].concat(),
					5 => [b, tlv(&[0x5A], b"**"), tlv(&[0xEA], &[])].concat(),
					_ => [b.clone(), if b.len() < 2000 { b } else { small }].concat(),
				};
				let parent: &[u8] = match d[3] {
					0 => &[0xE1],
					1 => &[0x7F, 0x21],
					_ => [&[0x30][..], &[0xBF, 0x0C], &[0x6F], &[0xFF, 0x81, 0x01]][level % 4],
				};
				b = tlv(parent, &b);
				if b.len() > 40_000 {
					return Ok(());
				}
			}
			let f = [Form::Ber, Form::BerUnsorted, Form::AutoBer, Form::Ingenico, Form::AutoIngenico, Form::Skipping];
			let f: Vec<Form> = f.into_iter().filter(|f| forms.contains(f)).collect();
			judge(r, f[(d[0] + d[1] + d[2] + d[3]) % f.len()], &[b])
		},
	);

	let leaf = [tlv(&[0xC1], &[7]), tlv(&[0x84], &[]), tlv(&[0x5A], b"**")];
	let every: Vec<Vec<u8>> = (1..=e.pick(4usize, 5)).flat_map(|n| crate::tlv::forests(n, &[vec![0xE1]], &leaf)).collect();
	let deep = e.pick(11u64, 21);
	let radix = [every.len() as u64, deep, 2];
	e.family(
		"every shape at every depth",
		"every ordered forest of up to 4 (5) objects over 3 kinds of leaf, inside 0..10 (20) further constructed objects, alone there or before a sibling at each level",
		product(&radix),
		|r, i| {
			let d = digits(i, &radix);
			let mut b = every[d[0]].clone();
			for level in 0..d[1] {
				b = tlv(&[0xE2], &b);
				if d[2] == 1 {
					b.extend(tlv(&[0xC2], &[level as u8]));
				}
			}
			let f = [Form::Ber, Form::BerUnsorted, Form::AutoBer, Form::Nested, Form::Nested2];
			let f: Vec<Form> = f.into_iter().filter(|f| forms.contains(f)).collect();
			if f.is_empty() {
				return Ok(());
			}
			judge(r, f[(d[0] + d[1] + d[2]) % f.len()], &top_objects(&b))
		},
	);
}
