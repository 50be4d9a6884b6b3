//! The reference model: what pemv is to show for an input, written from the properties and the EMV books.
//! It is deliberately boring: recursive functions over byte vectors, no cursors shared between levels.

use std::cell::Cell;

use crate::spec::{self, Field, Kind, Sev};

thread_local! {
	static STEPS: Cell<u64> = const { Cell::new(0) };
}
/// Counts one transition of the model (an object, field, digit or rule decided).
pub fn step() {
	STEPS.with(|s| s.set(s.get() + 1));
}
pub fn take_steps() -> u64 {
	STEPS.with(|s| s.replace(0))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Diag {
	/// bound, expected, found
	Size(Bound, usize, usize),
	NotDivisible,
	InvalidNumber,
	NonCompliant,
	NonCcd,
	Unsupported,
	Unrecognised,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Bound {
	Exactly,
	AtLeast,
}

impl Diag {
	/// The words by which the tool names this reason.
	pub fn text(&self) -> String {
		match self {
			Diag::Size(b, e, f) => format!(
				"The wrong number of bytes were provided for the value. Perhaps you provided the wrong value? \
				 Expected: {} {e}, Found: {f}",
				match b {
					Bound::Exactly => "exactly",
					Bound::AtLeast => "greater than or equal to",
				}
			),
			Diag::NotDivisible => "The number of bytes provided is not divisible into the components of the value. \
			                       Please check the format of the input data."
				.to_owned(),
			Diag::InvalidNumber => "The value provided is not a valid number, or is too large.".to_owned(),
			Diag::NonCompliant => "The value provided isn't compliant with the specifications in some way, or this \
			                       tool is out of date. If you have reason to believe it's the latter, please make \
			                       sure you're using the latest version then open an issue on GitHub."
				.to_owned(),
			Diag::NonCcd => "The value provided isn't compliant with the EMV Common Core Definitions (CCD) in some \
			                 way. This isn't a problem necessarily, but it does mean that the value can't be parsed."
				.to_owned(),
			Diag::Unsupported => "The value provided is in some way unsupported. If you have genuine need for the \
			                      unsupported feature, please open an issue on GitHub."
				.to_owned(),
			Diag::Unrecognised => "The value provided is in some way unrecognised. This isn't a problem \
			                       necessarily, but it does mean that the value can't be parsed."
				.to_owned(),
		}
	}
}

// ---------------------------------------------------------------------------------------------------------
// hex

pub fn hex(b: &[u8]) -> String {
	use std::fmt::Write;
	let mut s = String::with_capacity(b.len() * 2);
	for x in b {
		let _ = write!(s, "{x:02X}");
	}
	s
}
pub fn lenient_hex(t: &[u8]) -> Vec<u8> {
	let digits: Vec<u8> = t
		.iter()
		.filter_map(|c| (*c as char).to_digit(16).map(|d| d as u8))
		.collect();
	digits.chunks_exact(2).map(|p| p[0] * 16 + p[1]).collect()
}
fn strict_hex(t: &[u8]) -> Option<Vec<u8>> {
	if t.len() % 2 != 0 || !t.iter().all(u8::is_ascii_hexdigit) {
		return None;
	}
	Some(lenient_hex(t))
}

// ---------------------------------------------------------------------------------------------------------
// TLV structure

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
	Masked,
	Data(Vec<u8>),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Node {
	pub tag: Vec<u8>,
	pub val: Val,
	pub kids: Vec<Node>,
}

pub const MAX_DEPTH: usize = 128;

fn all_one_of<T: Copy + PartialEq>(v: &[T], set: &[T]) -> bool {
	v.len() >= 2 && set.contains(&v[0]) && v.iter().all(|x| *x == v[0])
}
pub fn masked_bytes(v: &[u8], masks: &[char]) -> bool {
	let chars: Vec<char> = v.iter().map(|b| *b as char).collect();
	all_one_of(&chars, masks)
}

/// BER-TLV. `ambiguous` is set when the outcome rests on a length byte 0x80 (indefinite form), about which no
/// property says anything.
pub fn parse_ber(b: &[u8], masks: &[char], depth: usize, ambiguous: &mut bool) -> Result<Vec<Node>, Diag> {
	let mut nodes = Vec::new();
	let mut rest = b;
	while !rest.is_empty() {
		step();
		let mut taglen = 1;
		if rest[0] & 0x1F == 0x1F {
			loop {
				let c = *rest.get(taglen).ok_or(Diag::NonCompliant)?;
				taglen += 1;
				if c & 0x80 == 0 {
					break;
				}
			}
		}
		let (tag, after) = rest.split_at(taglen);
		let l0 = *after.first().ok_or(Diag::NonCompliant)? as usize;
		let (len, head) = if l0 < 0x80 {
			(l0 as u64, 1)
		} else {
			let n = l0 - 0x80;
			if n == 0 {
				*ambiguous = true;
			}
			if n > 4 {
				return Err(Diag::Unsupported);
			}
			let bytes = after.get(1..1 + n).ok_or(Diag::NonCompliant)?;
			(bytes.iter().fold(0u64, |a, x| a * 256 + u64::from(*x)), 1 + n)
		};
		let body = &after[head..];
		if len > body.len() as u64 {
			return Err(Diag::NonCompliant);
		}
		let (data, next) = body.split_at(len as usize);
		nodes.push(node(tag, data, masked_bytes(data, masks), masks, depth, ambiguous));
		rest = next;
	}
	Ok(nodes)
}

fn node(tag: &[u8], data: &[u8], masked: bool, masks: &[char], depth: usize, ambiguous: &mut bool) -> Node {
	if masked {
		return Node {
			tag: tag.to_vec(),
			val: Val::Masked,
			kids: vec![],
		};
	}
	let kids = if tag[0] & 0x20 != 0 && depth < MAX_DEPTH {
		parse_ber(data, masks, depth + 1, ambiguous).unwrap_or_default()
	} else {
		vec![]
	};
	Node {
		tag: tag.to_vec(),
		val: Val::Data(data.to_vec()),
		kids,
	}
}

fn trim0(b: Vec<u8>) -> Vec<u8> {
	let keep = b
		.iter()
		.position(|x| *x != 0)
		.unwrap_or(b.len().saturating_sub(1));
	b[keep..].to_vec()
}

pub fn parse_ingenico(text: &[u8], masks: &[char], ambiguous: &mut bool) -> Result<Vec<Node>, Diag> {
	if !text.is_ascii() {
		return Err(Diag::NonCompliant);
	}
	let bad = Diag::NonCompliant;
	let mut nodes = Vec::new();
	let mut rest = text;
	while !rest.is_empty() {
		step();
		let kind = rest[0];
		let t = &rest[1..];
		let colon = t.iter().position(|c| *c == b':').ok_or(bad)?;
		let tag = strict_hex(&t[..colon]).ok_or(bad)?;
		if tag.is_empty() {
			return Err(bad);
		}
		let tag = trim0(tag);
		let t = &t[colon + 1..];
		let colon = t.iter().position(|c| *c == b':').ok_or(bad)?;
		let len = strict_hex(&t[..colon]).ok_or(bad)?;
		if len.is_empty() {
			return Err(bad);
		}
		let len = trim0(len);
		if len.len() > 4 {
			return Err(Diag::Unsupported);
		}
		let len = len.iter().fold(0u64, |a, x| a * 256 + u64::from(*x));
		let t = &t[colon + 1..];
		let format = *t.first().ok_or(bad)?;
		let chars = match format {
			b'a' => len,
			b'h' => len * 2,
			_ => return Err(bad),
		};
		let t = &t[1..];
		if chars > t.len() as u64 {
			return Err(bad);
		}
		let (value, next) = t.split_at(chars as usize);
		let value_chars: Vec<char> = value.iter().map(|b| *b as char).collect();
		let masked = all_one_of(&value_chars, masks);
		let data = match format {
			b'a' => value.to_vec(),
			_ if masked => vec![],
			_ => strict_hex(value).ok_or(bad)?,
		};
		if kind == b'T' {
			nodes.push(node(&tag, &data, masked, masks, 0, ambiguous));
		}
		rest = if next.is_empty() { next } else { &next[1..] };
	}
	Ok(nodes)
}

// ---------------------------------------------------------------------------------------------------------
// what is shown

/// One line of output: indentation, text, and for a bit explanation where its text starts and its severity.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Line {
	pub indent: usize,
	pub text: String,
	pub bit: Option<(usize, Sev)>,
}
fn line(indent: usize, text: impl Into<String>) -> Line {
	Line {
		indent,
		text: text.into(),
		bit: None,
	}
}
pub type Lines = Vec<Line>;

pub fn write_lines(lines: &[Line], extra: usize, out: &mut String) {
	for l in lines {
		if !l.text.is_empty() {
			for _ in 0..l.indent + extra {
				out.push('\t');
			}
			out.push_str(&l.text);
		}
		out.push('\n');
	}
}
pub fn text_of(lines: &[Line]) -> String {
	let mut s = String::new();
	write_lines(lines, 0, &mut s);
	s
}

fn lookup<'a>(table: &'a [(u8, &'a str)], v: u8) -> Option<&'a str> {
	table.iter().find(|(c, _)| *c == v).map(|(_, t)| *t)
}
pub fn method_name(v: u8) -> &'static str {
	lookup(spec::CVM_METHODS, v).unwrap_or("Unknown (likely issuer or payment system-specific)")
}
pub fn condition_name(v: u8) -> &'static str {
	lookup(spec::CVM_CONDITIONS, v).unwrap_or("Unknown (likely payment system-specific)")
}

/// The meaning of a field's value, or None when the value is not assigned.
fn meaning(kind: Kind, v: u8) -> Result<String, Diag> {
	Ok(match kind {
		Kind::Flag => String::new(),
		Kind::Number => v.to_string(),
		Kind::GenAc1 => spec::GEN_AC_1[v as usize].to_owned(),
		Kind::GenAc2 => spec::GEN_AC_2[v as usize].to_owned(),
		Kind::FormatCode => match v {
			0xA => "Format A".to_owned(),
			_ => return Err(Diag::NonCcd),
		},
		Kind::CryptogramVersion => match v {
			5 => "Triple DES (3DES)".to_owned(),
			6 => "AES".to_owned(),
			_ => return Err(Diag::NonCcd),
		},
		Kind::Method => method_name(v).to_owned(),
		Kind::Condition => condition_name(v).to_owned(),
		Kind::CvmResult => spec::CVM_RESULT
			.get(v as usize)
			.ok_or(Diag::NonCompliant)?
			.to_string(),
	})
}

fn field_mask(f: &Field) -> u8 {
	let m = if f.width == 8 { 0xFF } else { (1u8 << f.width) - 1 };
	m << (f.hi + 1 - f.width)
}
pub fn used_mask(fields: &[Field], bytes: usize) -> Vec<u8> {
	let mut m = vec![0; bytes];
	for f in fields {
		m[f.byte] |= field_mask(f);
	}
	m
}
/// The column at which bit `hi` of byte `byte` is printed.
pub fn column(byte: usize, hi: u8) -> usize {
	byte * 9 + 7 - hi as usize
}

pub struct Entry {
	pub column: usize,
	pub width: usize,
	pub text: String,
	pub sev: Sev,
}
pub struct Bits {
	pub binary: String,
	pub entries: Vec<Entry>,
}
pub fn bits(fields: &[Field], size: usize, v: &[u8]) -> Result<Bits, Diag> {
	if v.len() != size {
		return Err(Diag::Size(Bound::Exactly, size, v.len()));
	}
	let mask = used_mask(fields, size);
	let binary: Vec<String> = v
		.iter()
		.zip(&mask)
		.map(|(b, m)| format!("{:08b}", b & m))
		.collect();
	let mut entries = Vec::new();
	for f in fields {
		step();
		let value = (v[f.byte] & field_mask(f)) >> (f.hi + 1 - f.width);
		if f.kind == Kind::Flag {
			if value == 0 {
				continue;
			}
			entries.push(Entry {
				column: column(f.byte, f.hi),
				width: 1,
				text: f.text.to_owned(),
				sev: f.sev,
			});
		} else {
			let m = meaning(f.kind, value)?;
			let sev = if f.kind == Kind::CvmResult && value == 1 {
				Sev::Error
			} else {
				f.sev
			};
			entries.push(Entry {
				column: column(f.byte, f.hi),
				width: f.width as usize,
				text: format!("{} {m}", f.text),
				sev,
			});
		}
	}
	Ok(Bits {
		binary: binary.join(" "),
		entries,
	})
}
pub fn draw(b: &Bits, coloured: bool) -> Lines {
	let mut out = vec![line(0, b.binary.clone())];
	let put = |row: &mut Vec<char>, col: usize, c: char| {
		while row.len() <= col {
			row.push(' ');
		}
		row[col] = c;
	};
	if b.entries.iter().any(|e| e.width > 1) {
		let mut row = Vec::new();
		for e in &b.entries {
			if e.width == 1 {
				put(&mut row, e.column, '│');
			} else {
				put(&mut row, e.column, '├');
				for i in 1..e.width - 1 {
					put(&mut row, e.column + i, '─');
				}
				put(&mut row, e.column + e.width - 1, '┘');
			}
		}
		out.push(line(0, row.into_iter().collect::<String>()));
	}
	for (i, e) in b.entries.iter().enumerate().rev() {
		let mut row = Vec::new();
		for left in &b.entries[..i] {
			put(&mut row, left.column, '│');
		}
		put(&mut row, e.column, '└');
		let mut text: String = row.into_iter().collect();
		text.push(' ');
		let at = text.len();
		text.push_str(&e.text);
		out.push(Line {
			indent: 0,
			text,
			bit: Some((at, if coloured { e.sev } else { Sev::Normal })),
		});
	}
	out
}
pub fn show_bits(fields: &[Field], size: usize, v: &[u8], coloured: bool) -> Result<Lines, Diag> {
	Ok(draw(&bits(fields, size, v)?, coloured))
}

fn indent(mut l: Lines, by: usize) -> Lines {
	for x in &mut l {
		x.indent += by;
	}
	l
}

pub fn show_iac(heading: &str, v: &[u8]) -> Result<Lines, Diag> {
	let mut l = show_bits(spec::TVR, 5, v, false)?;
	l.insert(0, line(0, heading));
	Ok(l)
}
fn spaced_hex(b: &[u8]) -> String {
	b.iter()
		.map(|x| format!("{x:02X}"))
		.collect::<Vec<_>>()
		.join(" ")
}
pub fn show_iad(v: &[u8]) -> Result<Lines, Diag> {
	if v.len() != 32 || v[0] != 0x0F || v[16] != 0x0F {
		return Err(Diag::NonCcd);
	}
	let mut l = vec![line(0, "Common Core Identifier:")];
	l.extend(indent(show_bits(spec::CCI, 1, &v[1..2], true)?, 1));
	l.push(line(0, format!("Derivation Key Index: 0x{:02X}", v[2])));
	l.push(line(0, "Card Verification Results:"));
	l.extend(indent(show_bits(spec::CVR, 5, &v[3..8], true)?, 1));
	l.push(line(0, "Counters: (Payment System-Specific)"));
	l.push(line(1, spaced_hex(&v[8..16])));
	l.push(line(0, "Issuer-Discretionary Data"));
	l.push(line(1, spaced_hex(&v[17..32])));
	Ok(l)
}
pub fn show_cvm_list(v: &[u8]) -> Result<Lines, Diag> {
	if v.len() < 8 {
		return Err(Diag::Size(Bound::AtLeast, 8, v.len()));
	}
	if v.len() % 2 != 0 {
		return Err(Diag::NotDivisible);
	}
	let be = |b: &[u8]| b.iter().fold(0u64, |a, x| a * 256 + u64::from(*x));
	let (x, y) = (be(&v[..4]), be(&v[4..8]));
	let rules = &v[8..];
	let mut l = Vec::new();
	if x != 0 || y != 0 || rules.chunks(2).any(|r| (6..=9).contains(&r[1])) {
		let w = x.to_string().len().max(y.to_string().len()).max(3);
		l.push(line(
			0,
			format!("X Value: {x:0w$} (implicit decimal point based on application currency)"),
		));
		l.push(line(0, format!("Y Value: {y:0w$}")));
	}
	l.push(line(0, "Cardholder Verification Rules:"));
	for (i, r) in rules.chunks(2).enumerate() {
		step();
		l.push(line(0, format!("CVM {}:", i + 1)));
		l.push(line(1, format!("Method:          {}", method_name(r[0] & 0x3F))));
		l.push(line(1, format!("Condition:       {}", condition_name(r[1]))));
		l.push(line(
			1,
			format!(
				"If Unsuccessful: {}",
				if r[0] & 0x40 != 0 { "Next CVM" } else { "Fail" }
			),
		));
	}
	Ok(l)
}
pub fn show_service_code(n: u32) -> Result<Lines, Diag> {
	if n > 999 {
		return Err(Diag::InvalidNumber);
	}
	let (a, b, c) = (n / 100, n / 10 % 10, n % 10);
	step();
	let services = match c {
		0 | 1 | 6 => "No restrictions",
		2 | 5 | 7 => "Goods and services only",
		3 => "ATM only",
		4 => "Cash only",
		_ => "RFU",
	};
	let pin = match c {
		0 | 3 | 5 => "PIN required",
		6 | 7 => "Prompt for PIN if PIN pad is present",
		_ => "None",
	};
	let auth = match b {
		0 => "Normal",
		2 => "By issuer only (no offline authorisation)",
		4 => "By issuer only unless an explicit bilateral agreement applies (no offline authorisation)",
		_ => "RFU",
	};
	let interchange = match a {
		1 | 2 => "International",
		5 | 6 => "National",
		7 => "Private",
		9 => "Test",
		_ => "RFU",
	};
	let technology = match a {
		2 | 6 => "Integrated circuit card (ICC)",
		_ => "Magnetic stripe only (MSR)",
	};
	Ok(vec![
		line(0, format!("{n:03}")),
		line(0, format!("││├ Allowed Services:         {services}")),
		line(0, format!("││└ PIN Requirements:         {pin}")),
		line(0, format!("│└─ Authorisation Processing: {auth}")),
		line(0, format!("├── Interchange:              {interchange}")),
		line(0, format!("└── Technology:               {technology}")),
	])
}
/// Tag 5F30: four packed decimal digits.
pub fn show_service_code_bcd(v: &[u8]) -> Result<Lines, Diag> {
	if v.len() != 2 {
		return Err(Diag::Size(Bound::Exactly, 2, v.len()));
	}
	let mut n = 0;
	for b in v {
		for d in [b >> 4, b & 15] {
			if d > 9 {
				return Err(Diag::InvalidNumber);
			}
			n = n * 10 + u32::from(d);
		}
	}
	show_service_code(n)
}
fn show_code(table: &[(u8, &str)], v: &[u8]) -> Result<Lines, Diag> {
	if v.len() != 1 {
		return Err(Diag::Size(Bound::Exactly, 1, v.len()));
	}
	step();
	lookup(table, v[0])
		.map(|t| vec![line(0, t)])
		.ok_or(Diag::Unrecognised)
}
pub fn show_arc(v: &[u8]) -> Result<Lines, Diag> {
	if v.len() != 2 {
		return Err(Diag::Size(Bound::Exactly, 2, v.len()));
	}
	step();
	let s = std::str::from_utf8(v).map_err(|_| Diag::InvalidNumber)?;
	spec::ARC
		.iter()
		.find(|(c, _)| *c == s)
		.map(|(_, t)| vec![line(0, *t)])
		.ok_or(Diag::Unrecognised)
}

pub fn tag_name(tag: &[u8]) -> Option<&'static str> {
	spec::TAG_NAMES
		.iter()
		.find(|(t, _)| *t == tag)
		.map(|(_, n)| *n)
}

/// Name and breakdown of one unmasked data object, as a TLV block shows it.
pub fn interpret(tag: &[u8], v: &[u8]) -> Result<(Option<String>, Option<Lines>), Diag> {
	let name = tag_name(tag).map(str::to_owned);
	let unrecognised = |n: Option<String>| {
		(
			n.map(|n| format!("{n} (Unrecognised - likely payment system-specific)")),
			None,
		)
	};
	let parsed = match tag {
		[0x5F, 0x30] => show_service_code_bcd(v)?,
		[0x8A] => match show_arc(v) {
			Err(Diag::Unrecognised) => return Ok(unrecognised(name)),
			r => r?,
		},
		[0x8E] => show_cvm_list(v)?,
		[0x95] => show_bits(spec::TVR, 5, v, true)?,
		[0x9B] => show_bits(spec::TSI, 2, v, true)?,
		[0x9C] => match show_code(spec::TXN_TYPE, v) {
			Err(Diag::Unrecognised) => return Ok(unrecognised(name)),
			r => r?,
		},
		[0x9F, 0x0D] => show_iac(spec::IAC_DEFAULT, v)?,
		[0x9F, 0x0E] => show_iac(spec::IAC_DENIAL, v)?,
		[0x9F, 0x0F] => show_iac(spec::IAC_ONLINE, v)?,
		[0x9F, 0x10] => match show_iad(v) {
			Err(Diag::NonCcd) => {
				return Ok((
					Some("Issuer Application Data (Not CCD-Compliant)".to_owned()),
					None,
				))
			}
			r => r?,
		},
		[0x9F, 0x33] => show_bits(spec::TERM_CAPS, 3, v, true)?,
		[0x9F, 0x34] => show_bits(spec::CVM_RESULTS, 3, v, true)?,
		[0x9F, 0x35] => show_code(spec::TERMINAL_TYPE, v)?,
		[0x9F, 0x39] => show_code(spec::POS_ENTRY, v)?,
		[0x9F, 0x40] => show_bits(spec::ADD_CAPS, 5, v, true)?,
		_ => return Ok((name, None)),
	};
	Ok((name, Some(parsed)))
}

/// A data object as it is shown.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Shown {
	pub tag: Vec<u8>,
	pub name: String,
	/// None: masked
	pub data: Option<Vec<u8>>,
	/// relative to the object's own indentation + 1
	pub parsed: Option<Lines>,
	pub kids: Vec<Shown>,
}

pub fn annotate(nodes: &[Node]) -> Result<Vec<Shown>, Diag> {
	nodes
		.iter()
		.map(|n| {
			let (name, data, parsed) = match &n.val {
				Val::Masked => (tag_name(&n.tag).map(str::to_owned), None, None),
				Val::Data(d) => {
					let (name, parsed) = interpret(&n.tag, d)?;
					(name, Some(d.clone()), parsed)
				}
			};
			Ok(Shown {
				tag: n.tag.clone(),
				name: name.unwrap_or_else(|| "<Unknown>".to_owned()),
				data,
				parsed,
				kids: annotate(&n.kids)?,
			})
		})
		.collect()
}
pub fn sort(s: &mut [Shown]) {
	s.sort_by(|a, b| a.tag.cmp(&b.tag));
	for x in s {
		sort(&mut x.kids);
	}
}

pub fn dump_lines(data: &[u8]) -> Lines {
	data.chunks(16)
		.map(|c| {
			let mut t = spaced_hex(c);
			while t.len() < 16 * 3 - 1 {
				t.push(' ');
			}
			t += "  ";
			t.extend(c.iter().map(|b| match b {
				0x20..=0x7E => *b as char,
				_ => '.',
			}));
			line(0, t)
		})
		.collect()
}

pub fn shown_lines(s: &Shown) -> Lines {
	let size = match &s.data {
		None => "?? bytes".to_owned(),
		Some(d) if d.len() == 1 => "1 byte".to_owned(),
		Some(d) => format!("{} bytes", d.len()),
	};
	let mut l = vec![line(0, format!("Tag: 0x{} - {size} - {}", hex(&s.tag), s.name))];
	match &s.data {
		None => l.push(line(0, "* Masked *")),
		Some(d) if d.is_empty() => (),
		Some(d) => {
			l.push(line(0, "Raw:"));
			l.extend(indent(dump_lines(d), 1));
		}
	}
	if let Some(p) = &s.parsed {
		l.push(line(0, "Parsed:"));
		l.extend(indent(p.clone(), 1));
	}
	if !s.kids.is_empty() {
		l.push(line(0, "Constructed Data Object's Child Tags:"));
		l.extend(indent(block_lines(&s.kids), 1));
	}
	l
}
pub fn block_lines(b: &[Shown]) -> Lines {
	let mut l = Vec::new();
	for (i, s) in b.iter().enumerate() {
		if i > 0 {
			l.push(line(0, ""));
		}
		l.extend(shown_lines(s));
	}
	l
}

pub fn identify_lines(tag: &[u8]) -> Result<Lines, Diag> {
	if tag.is_empty() {
		return Err(Diag::Size(Bound::AtLeast, 1, 0));
	}
	let class = ["Universal", "Application", "Context-Specific", "Private"][(tag[0] >> 6) as usize];
	let kind = if tag[0] & 0x20 != 0 { "Constructed" } else { "Primitive" };
	step();
	Ok(vec![
		line(
			0,
			format!("Name:             {}", tag_name(tag).unwrap_or("<Unknown>")),
		),
		line(0, format!("Tag:              0x{}", hex(tag))),
		line(0, format!("Class:            {class}")),
		line(0, format!("Data Object Type: {kind}")),
	])
}

// ---------------------------------------------------------------------------------------------------------
// whole operations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
	Tvr,
	Iad,
	Cvr,
	Tsi,
	CvmResults,
	CvmList,
	Identify,
	Auto,
	Ber,
	Ingenico,
	ServiceCode,
}
pub const ALL_OPS: [Op; 11] = [
	Op::Tvr,
	Op::Iad,
	Op::Cvr,
	Op::Tsi,
	Op::CvmResults,
	Op::CvmList,
	Op::Identify,
	Op::Auto,
	Op::Ber,
	Op::Ingenico,
	Op::ServiceCode,
];
impl Op {
	pub fn flag(self) -> &'static str {
		match self {
			Op::Tvr => "--tvr",
			Op::Iad => "--ccd-iad",
			Op::Cvr => "--ccd-cvr",
			Op::Tsi => "--tsi",
			Op::CvmResults => "--cvm-results",
			Op::CvmList => "--cvm-list",
			Op::Identify => "--identify",
			Op::Auto => "--auto-tlv",
			Op::Ber => "--ber-tlv",
			Op::Ingenico => "--ingenico-tlv",
			Op::ServiceCode => "--service-code",
		}
	}
	pub fn is_tlv(self) -> bool {
		matches!(self, Op::Auto | Op::Ber | Op::Ingenico)
	}
}

#[derive(Clone, Debug)]
pub struct Settings {
	pub masks: Vec<char>,
	pub sort: bool,
}
impl Default for Settings {
	fn default() -> Self {
		Settings {
			masks: vec!['*'],
			sort: true,
		}
	}
}

#[derive(Clone, Debug)]
pub struct Expect {
	pub result: Result<Lines, Diag>,
	/// the data objects, for TLV operations
	pub tree: Vec<Shown>,
	/// no property decides this input
	pub ambiguous: bool,
}
impl Expect {
	pub fn stdout(&self) -> String {
		self.result.as_ref().map_or(String::new(), |l| text_of(l))
	}
}

pub fn expect(op: Op, text: &[u8], s: &Settings) -> Expect {
	let mut ambiguous = false;
	let value = lenient_hex(text);
	let mut tree = Vec::new();
	let mut block = |r: Result<Vec<Node>, Diag>, head: Lines| -> Result<Lines, Diag> {
		let mut shown = annotate(&r?)?;
		if s.sort {
			sort(&mut shown);
		}
		let mut l = head;
		l.extend(block_lines(&shown));
		tree = shown;
		Ok(l)
	};
	let result = match op {
		Op::Tvr => show_bits(spec::TVR, 5, &value, true),
		Op::Iad => show_iad(&value),
		Op::Cvr => show_bits(spec::CVR, 5, &value, true),
		Op::Tsi => show_bits(spec::TSI, 2, &value, true),
		Op::CvmResults => show_bits(spec::CVM_RESULTS, 3, &value, true),
		Op::CvmList => show_cvm_list(&value),
		Op::Identify => identify_lines(&value),
		Op::Ber => block(parse_ber(&value, &s.masks, 0, &mut ambiguous), vec![]),
		Op::Ingenico => block(parse_ingenico(text, &s.masks, &mut ambiguous), vec![]),
		Op::Auto => {
			let head = |f: &str| vec![line(0, format!("TLV Format: {f}")), line(0, "")];
			match parse_ingenico(text, &s.masks, &mut ambiguous) {
				Ok(n) => block(Ok(n), head("Ingenico")),
				Err(_) => match parse_ber(&value, &s.masks, 0, &mut ambiguous) {
					Ok(n) if !n.is_empty() => block(Ok(n), head("BER-TLV")),
					_ => Err(Diag::Unrecognised),
				},
			}
		}
		Op::ServiceCode => {
			let t = String::from_utf8_lossy(text);
			let t = t.trim();
			if t.starts_with('+') {
				ambiguous = true;
			}
			if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
				Err(Diag::InvalidNumber)
			} else {
				let significant = t.trim_start_matches('0');
				if significant.len() > 3 {
					Err(Diag::InvalidNumber)
				} else {
					show_service_code(significant.parse().unwrap_or(0))
				}
			}
		}
	};
	Expect {
		result,
		tree,
		ambiguous,
	}
}

// ---------------------------------------------------------------------------------------------------------
// building inputs

pub fn tlv(tag: &[u8], value: &[u8]) -> Vec<u8> {
	let mut b = tag.to_vec();
	let n = value.len();
	match n {
		0..=0x7F => b.push(n as u8),
		0x80..=0xFF => b.extend([0x81, n as u8]),
		0x100..=0xFFFF => b.extend([0x82, (n >> 8) as u8, n as u8]),
		_ => b.extend([0x83, (n >> 16) as u8, (n >> 8) as u8, n as u8]),
	}
	b.extend(value);
	b
}
