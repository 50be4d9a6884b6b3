//! Reads pemv's real output back into data objects, so that a check can compare just the part of the output
//! its property speaks about.

use crate::model::{self, Lines, Shown};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Obs {
	pub indent: usize,
	pub tag: String,
	/// the words between the tag and the name: "1 byte", "?? bytes"
	pub size: String,
	pub name: String,
	pub masked: bool,
	pub raw_header: bool,
	/// relative to the expected indentation (own + 1)
	pub raw_lines: Vec<String>,
	pub parsed: Option<Vec<String>>,
	pub child_header: bool,
	pub kids: Vec<Obs>,
}

fn unindent(l: &str) -> (usize, &str) {
	let t = l.trim_start_matches('\t');
	(l.len() - t.len(), t)
}
fn strip(l: &str, n: usize) -> String {
	let (i, t) = unindent(l);
	if i >= n {
		l[n..].to_owned()
	} else {
		// too little indentation: keep it visible
		format!("<-{}>{t}", n - i)
	}
}

#[derive(PartialEq)]
enum Section {
	None,
	Raw,
	Parsed,
}

/// Reads a whole block of data objects. Anything that is not the shape of a block is an error.
pub fn block(text: &str) -> Result<Vec<Obs>, String> {
	let mut flat: Vec<Obs> = Vec::new();
	let mut section = Section::None;
	let mut blank = true; // a node may start here
	if !text.is_empty() && !text.ends_with('\n') {
		return Err("output does not end with a newline".into());
	}
	for (n, l) in text.lines().enumerate() {
		let at = |m: &str| format!("line {}: {m}: {l:?}", n + 1);
		if l.is_empty() {
			if blank {
				return Err(at("unexpected blank line"));
			}
			blank = true;
			section = Section::None;
			continue;
		}
		let (ind, t) = unindent(l);
		if let Some(rest) = t.strip_prefix("Tag: 0x") {
			let may_start = blank || flat.last().is_some_and(|o| o.child_header && ind == o.indent + 1);
			if may_start {
				let mut p = rest.splitn(3, " - ");
				let (tag, size, name) = (p.next(), p.next(), p.next());
				let (Some(tag), Some(size), Some(name)) = (tag, size, name) else {
					return Err(at("not a data object heading"));
				};
				flat.push(Obs {
					indent: ind,
					tag: tag.to_owned(),
					size: size.to_owned(),
					name: name.to_owned(),
					..Obs::default()
				});
				blank = false;
				section = Section::None;
				continue;
			}
		}
		let Some(o) = flat.last_mut() else {
			return Err(at("text before the first data object"));
		};
		if blank {
			return Err(at("text after a blank line that is not a data object"));
		}
		if ind == o.indent && t == "* Masked *" && section == Section::None {
			o.masked = true;
		} else if ind == o.indent && t == "Raw:" && section == Section::None {
			o.raw_header = true;
			section = Section::Raw;
		} else if ind == o.indent && t == "Parsed:" && section != Section::Parsed {
			o.parsed = Some(vec![]);
			section = Section::Parsed;
		} else if ind == o.indent && t == "Constructed Data Object's Child Tags:" {
			o.child_header = true;
			section = Section::None;
		} else {
			match section {
				Section::Raw => o.raw_lines.push(strip(l, o.indent + 1)),
				Section::Parsed => {
					let s = strip(l, o.indent + 1);
					o.parsed.get_or_insert_with(Vec::new).push(s);
				}
				Section::None => return Err(at("unexpected text")),
			}
		}
	}
	if blank && !text.is_empty() {
		return Err("the output ends with a blank line".into());
	}
	// nest
	fn build(it: &mut std::iter::Peekable<std::vec::IntoIter<Obs>>, level: usize) -> Result<Vec<Obs>, String> {
		let mut v = Vec::new();
		while let Some(o) = it.peek() {
			if o.indent < level {
				break;
			}
			if o.indent > level {
				return Err(format!("tag {} is indented too deep", o.tag));
			}
			let mut o = it.next().unwrap();
			if o.child_header {
				o.kids = build(it, level + 1)?;
				if o.kids.is_empty() {
					return Err(format!("tag {} announces children but has none", o.tag));
				}
			}
			v.push(o);
		}
		Ok(v)
	}
	let mut it = flat.into_iter().peekable();
	let r = build(&mut it, 0)?;
	if it.peek().is_some() {
		return Err("objects left over".into());
	}
	Ok(r)
}

impl Obs {
	/// The bytes the dump shows: from the hex digits of each line.
	pub fn bytes(&self) -> Option<Vec<u8>> {
		let mut v = Vec::new();
		for l in &self.raw_lines {
			let mut n = 0;
			for w in l.split(' ') {
				if w.is_empty() || n == 16 {
					break;
				}
				if w.len() != 2 {
					return None;
				}
				v.push(u8::from_str_radix(w, 16).ok()?);
				n += 1;
			}
		}
		Some(v)
	}
}

/// Which parts of a block to compare.
#[derive(Clone, Copy, Debug, Default)]
pub struct Proj {
	pub order: bool,
	pub size: bool,
	pub value: bool,
	pub name: bool,
	pub masked: bool,
	pub parsed: bool,
	pub kids: bool,
	pub dump: bool,
}
pub const TREE: Proj = Proj {
	order: false,
	size: true,
	value: true,
	name: false,
	masked: false,
	parsed: false,
	kids: true,
	dump: false,
};
fn size_words(s: &Shown) -> String {
	match &s.data {
		None => "?? bytes".into(),
		Some(d) if d.len() == 1 => "1 byte".into(),
		Some(d) => format!("{} bytes", d.len()),
	}
}
fn size_number(words: &str) -> &str {
	words.split(' ').next().unwrap_or("")
}
fn plain(l: &Lines) -> Vec<String> {
	let mut s = String::new();
	model::write_lines(l, 0, &mut s);
	s.lines().map(str::to_owned).collect()
}

pub fn compare(exp: &[Shown], got: &[Obs], p: Proj, path: &str) -> Result<(), String> {
	if exp.len() != got.len() {
		return Err(format!(
			"{path}: {} data objects expected, {} shown",
			exp.len(),
			got.len()
		));
	}
	let mut e: Vec<&Shown> = exp.iter().collect();
	let mut g: Vec<&Obs> = got.iter().collect();
	if !p.order {
		e.sort_by_cached_key(|s| (model::hex(&s.tag), s.data.clone()));
		g.sort_by_cached_key(|o| {
			(
				o.tag.clone(),
				if o.masked { None } else { Some(o.bytes().unwrap_or_default()) },
			)
		});
	}
	for (i, (s, o)) in e.iter().zip(&g).enumerate() {
		let here = format!("{path}/{}[{i}]", model::hex(&s.tag));
		if model::hex(&s.tag) != o.tag {
			return Err(format!("{here}: shown as tag {}", o.tag));
		}
		if p.size && size_number(&size_words(s)) != size_number(&o.size) {
			return Err(format!("{here}: {} expected, {:?} shown", size_words(s), o.size));
		}
		if p.value {
			if let Some(d) = &s.data {
				if o.bytes().as_deref() != Some(d) {
					return Err(format!(
						"{here}: value {} expected, dump {:?} shown",
						model::hex(d),
						o.raw_lines
					));
				}
			}
		}
		if p.masked {
			let m = s.data.is_none();
			if m != o.masked {
				return Err(format!("{here}: masked {m} expected, {} shown", o.masked));
			}
			if m && (o.raw_header || o.parsed.is_some() || o.child_header) {
				return Err(format!("{here}: masked, but more than the marker is shown"));
			}
			if (o.size == "?? bytes") != m {
				return Err(format!("{here}: size shown as {:?}", o.size));
			}
		}
		if p.name && s.name != o.name {
			return Err(format!("{here}: name {:?} expected, {:?} shown", s.name, o.name));
		}
		if p.dump {
			let want = s.data.as_ref().map(|d| plain(&model::dump_lines(d)));
			let have = (o.raw_header || !o.raw_lines.is_empty()).then(|| o.raw_lines.clone());
			let want = want.filter(|w| !w.is_empty());
			if want != have {
				return Err(format!("{here}: dump {want:?} expected, {have:?} shown"));
			}
			if size_words(s) != o.size {
				return Err(format!("{here}: {} expected, {:?} shown", size_words(s), o.size));
			}
		}
		if p.parsed {
			let want = s.parsed.as_ref().map(plain);
			if want != o.parsed {
				return Err(format!("{here}: breakdown {want:?} expected, {:?} shown", o.parsed));
			}
		}
		if p.kids {
			compare(&s.kids, &o.kids, p, &here)?;
		} else if !s.kids.is_empty() && s.kids.len() == o.kids.len() {
			// deeper levels only as far as they are shown
			compare(&s.kids, &o.kids, p, &here)?;
		}
	}
	Ok(())
}
