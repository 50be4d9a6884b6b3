//! Runs the real pemv binary: through the fork server (fast) or by a plain
//! exec (the confirmation path).

use std::ffi::CString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::{AsRawFd, FromRawFd, RawFd};
use std::os::unix::ffi::OsStrExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::Path;
use std::process::{Child, Command, Stdio};

extern "C" {
	fn mkfifo(path: *const i8, mode: u32) -> i32;
	fn memfd_create(name: *const i8, flags: u32) -> i32;
	fn ftruncate(fd: i32, len: i64) -> i32;
	fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
	fn pipe2(fds: *mut i32, flags: i32) -> i32;
	fn pread(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize;
	fn posix_openpt(flags: i32) -> i32;
	fn grantpt(fd: i32) -> i32;
	fn unlockpt(fd: i32) -> i32;
	fn ptsname_r(fd: i32, buf: *mut i8, len: usize) -> i32;
	fn alarm(secs: u32) -> u32;
	fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
	fn getrlimit(resource: i32, limit: *mut [u64; 2]) -> i32;
	fn setgroups(n: usize, list: *const u32) -> i32;
	fn setgid(id: u32) -> i32;
	fn setuid(id: u32) -> i32;
	fn sched_getaffinity(pid: i32, size: usize, set: *mut u64) -> i32;
	fn sched_setaffinity(pid: i32, size: usize, set: *const u64) -> i32;
	fn sched_setscheduler(pid: i32, policy: i32, priority: *const i32) -> i32;
	fn signal(signal: i32, handler: usize) -> usize;
	fn sigprocmask(how: i32, set: *const u64, old: *mut u64) -> i32;
	fn setsid() -> i32;
	fn personality(persona: u64) -> i32;
	fn prctl(what: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
	fn ioctl(fd: i32, request: u64, ...) -> i32;
	fn umask(mask: u32) -> u32;
	fn nice(by: i32) -> i32;
	fn dup(fd: i32) -> i32;
	fn close(fd: i32) -> i32;
	fn wait4(pid: i32, status: *mut i32, options: i32, usage: *mut [i64; 18]) -> i32;
}

const O_APPEND: i32 = 0o2000;
const O_CLOEXEC: i32 = 0o2000000;
const F_SETFD: i32 = 2;
const F_SETFL: i32 = 4;

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Case {
	pub args: Vec<Vec<u8>>,
	pub env: Vec<(String, Vec<u8>)>,
	pub cwd: String,
	pub faults: Vec<Fault>,
	/// clocks, random bytes and watching: see the fork server
	pub world: String,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Fault {
	pub index: u32,
	pub action: i32,
	pub repeat: u32,
}

impl Case {
	pub fn new<S: AsRef<[u8]>>(args: &[S]) -> Self {
		Case {
			args: args.iter().map(|a| a.as_ref().to_vec()).collect(),
			..Default::default()
		}
	}
	pub fn env(mut self, k: &str, v: &str) -> Self {
		self.env.push((k.to_owned(), v.as_bytes().to_vec()));
		self
	}
	pub fn arg<S: AsRef<[u8]>>(mut self, a: S) -> Self {
		self.args.push(a.as_ref().to_vec());
		self
	}
	pub fn shell(&self, bin: &str) -> String {
		let mut s = String::new();
		if !self.cwd.is_empty() {
			s += &format!("cd {} && ", quote(self.cwd.as_bytes()));
		}
		s += "env -i PATH=/usr/bin:/bin";
		for (k, v) in &self.env {
			s += &format!(" {}={}", k, quote(v));
		}
		s += &format!(" {bin}");
		for a in &self.args {
			s += " ";
			s += &quote(a);
		}
		if !self.world.is_empty() {
			s += &format!("   # in the world {}", self.world);
		}
		for f in &self.faults {
			s += &format!(
				"   # stdout write #{} (x{}) answered {}",
				f.index, f.repeat, f.action
			);
		}
		s
	}
}

pub fn quote(b: &[u8]) -> String {
	if !b.is_empty()
		&& b
			.iter()
			.all(|c| c.is_ascii_alphanumeric() || b"-_./=+,".contains(c))
	{
		return String::from_utf8_lossy(b).into_owned();
	}
	if b.iter().all(|c| (0x20..0x7f).contains(c) && *c != b'\'') {
		return format!("'{}'", String::from_utf8_lossy(b));
	}
	let mut s = String::from("$'");
	for &c in b {
		match c {
			b'\'' | b'\\' => {
				s.push('\\');
				s.push(c as char);
			}
			0x20..=0x7e => s.push(c as char),
			_ => s += &format!("\\x{c:02x}"),
		}
	}
	s + "'"
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Status {
	Exit(i32),
	Signal(i32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
	pub status: Status,
	pub out: Vec<u8>,
	pub err: Vec<u8>,
	pub writes: u32,
	/// processor time and peak memory; 0 where they are not measured
	pub cpu_ms: u32,
	pub peak_kib: u32,
	/// what a watched process did
	pub log: Vec<u8>,
}

impl Outcome {
	pub fn out_str(&self) -> String {
		String::from_utf8_lossy(&self.out).into_owned()
	}
	pub fn err_str(&self) -> String {
		String::from_utf8_lossy(&self.err).into_owned()
	}
}

pub fn default_env() -> Vec<(String, Vec<u8>)> {
	vec![("PATH".to_owned(), b"/usr/bin:/bin".to_vec())]
}

pub struct Server {
	child: Child,
	req: File,
	rsp: File,
	out: File,
	err: File,
	log: File,
	bin: String,
	default_cwd: String,
	pub alarm_secs: u32,
}

fn memfd(name: &str) -> File {
	let c = CString::new(name).unwrap();
	// SAFETY: plain libc calls, the descriptor is owned by the File
	unsafe {
		let fd = memfd_create(c.as_ptr() as *const i8, 1);
		assert!(fd >= 0, "memfd_create failed");
		assert!(fcntl(fd, F_SETFL, O_APPEND) == 0);
		File::from_raw_fd(fd)
	}
}

fn pipe() -> (File, File) {
	let mut fds = [0i32; 2];
	// SAFETY: plain libc call, descriptors are owned by the Files
	unsafe {
		assert!(pipe2(fds.as_mut_ptr(), O_CLOEXEC) == 0);
		(File::from_raw_fd(fds[0]), File::from_raw_fd(fds[1]))
	}
}

fn read_memfd(f: &File) -> Vec<u8> {
	let len = f.metadata().expect("fstat").len() as usize;
	let mut buf = vec![0u8; len];
	let mut off = 0;
	while off < len {
		// SAFETY: buffer bounds respected
		let n = unsafe { pread(f.as_raw_fd(), buf[off..].as_mut_ptr(), len - off, off as i64) };
		assert!(n > 0, "pread");
		off += n as usize;
	}
	buf
}

impl Server {
	pub fn start(bin: &str, shim: &str, default_cwd: &str) -> Server {
		let (req_r, req_w) = pipe();
		let (rsp_r, rsp_w) = pipe();
		let out = memfd("out");
		let err = memfd("err");
		let log = memfd("log");
		let fds: [RawFd; 5] = [
			req_r.as_raw_fd(),
			rsp_w.as_raw_fd(),
			out.as_raw_fd(),
			err.as_raw_fd(),
			log.as_raw_fd(),
		];
		let mut cmd = Command::new(bin);
		cmd.env_clear()
			.env("LD_PRELOAD", shim)
			.env("MC_REQ_FD", fds[0].to_string())
			.env("MC_RSP_FD", fds[1].to_string())
			.env("MC_OUT_FD", fds[2].to_string())
			.env("MC_ERR_FD", fds[3].to_string())
			.env("MC_LOG_FD", fds[4].to_string())
			.stdin(Stdio::null())
			.stdout(Stdio::null())
			.stderr(Stdio::null());
		// SAFETY: only async-signal-safe calls
		unsafe {
			cmd.pre_exec(move || {
				for fd in fds {
					fcntl(fd, F_SETFD, 0);
				}
				Ok(())
			});
		}
		let child = cmd.spawn().expect("cannot start the fork server");
		Server {
			child,
			req: req_w,
			rsp: rsp_r,
			out,
			err,
			log,
			bin: bin.to_owned(),
			default_cwd: default_cwd.to_owned(),
			alarm_secs: 10,
		}
	}

	pub fn run(&mut self, case: &Case) -> Outcome {
		// SAFETY: truncating our own memory files
		unsafe {
			ftruncate(self.out.as_raw_fd(), 0);
			ftruncate(self.err.as_raw_fd(), 0);
			if !case.world.is_empty() {
				ftruncate(self.log.as_raw_fd(), 0);
			}
		}
		let env = {
			let mut e = default_env();
			e.extend(case.env.iter().cloned());
			if !case.world.is_empty() {
				e.push(("MC_WORLD".to_owned(), case.world.as_bytes().to_vec()));
			}
			e
		};
		let size = 64
			+ case.args.iter().map(|a| a.len() + 1).sum::<usize>()
			+ case.cwd.len()
			+ env.iter().map(|(k, v)| k.len() + v.len() + 2).sum::<usize>();
		let mut b: Vec<u8> = Vec::with_capacity(size);
		b.extend([0; 4]);
		for v in [
			self.alarm_secs,
			case.faults.len() as u32,
			case.args.len() as u32 + 1,
			env.len() as u32,
		] {
			b.extend(v.to_ne_bytes());
		}
		for f in &case.faults {
			b.extend(f.index.to_ne_bytes());
			b.extend(f.action.to_ne_bytes());
			b.extend(f.repeat.to_ne_bytes());
		}
		b.extend(if case.cwd.is_empty() {
			self.default_cwd.as_bytes()
		} else {
			case.cwd.as_bytes()
		});
		b.push(0);
		b.extend(self.bin.as_bytes());
		b.push(0);
		for a in &case.args {
			debug_assert!(!a.contains(&0));
			b.extend(a);
			b.push(0);
		}
		for (k, v) in &env {
			b.extend(k.as_bytes());
			b.push(b'=');
			b.extend(v);
			b.push(0);
		}
		let len = (b.len() - 4) as u32;
		b[..4].copy_from_slice(&len.to_ne_bytes());
		self.req.write_all(&b).expect("fork server is gone");
		let mut a = [0u8; 16];
		self.rsp.read_exact(&mut a).expect("fork server is gone");
		let status = i32::from_ne_bytes(a[..4].try_into().unwrap());
		let writes = u32::from_ne_bytes(a[4..8].try_into().unwrap());
		Outcome {
			status: decode(status),
			out: read_memfd(&self.out),
			err: read_memfd(&self.err),
			writes,
			cpu_ms: u32::from_ne_bytes(a[8..12].try_into().unwrap()),
			peak_kib: u32::from_ne_bytes(a[12..].try_into().unwrap()),
			log: if case.world.is_empty() { vec![] } else { read_memfd(&self.log) },
		}
	}
}

impl Drop for Server {
	fn drop(&mut self) {
		let _ = self.child.kill();
		let _ = self.child.wait();
	}
}

fn decode(status: i32) -> Status {
	if status & 0x7f == 0 {
		Status::Exit((status >> 8) & 0xff)
	} else {
		Status::Signal(status & 0x7f)
	}
}

fn command(bin: &str, case: &Case, default_cwd: &str) -> Command {
	let mut cmd = Command::new(bin);
	cmd.env_clear();
	for (k, v) in default_env().into_iter().chain(case.env.iter().cloned()) {
		cmd.env(k, std::ffi::OsStr::from_bytes(&v));
	}
	for a in &case.args {
		cmd.arg(std::ffi::OsStr::from_bytes(a));
	}
	cmd.current_dir(if case.cwd.is_empty() {
		default_cwd
	} else {
		&case.cwd
	});
	// SAFETY: both are async-signal-safe, and what they set survives exec
	unsafe {
		cmd.pre_exec(|| {
			alarm(300);
			// a little less processor time than under the fork server, so that what runs out there does here
			setrlimit(0, &[PLAIN_CPU_SECS, PLAIN_CPU_SECS + 5]);
			Ok(())
		});
	}
	cmd
}

const PLAIN_CPU_SECS: u64 = 7;
const OUTPUT_LIMIT: u64 = 256 << 20;

/// A plain execution of the binary, with no preloaded code.
pub fn exec(bin: &str, case: &Case, default_cwd: &str) -> Outcome {
	let mut child = command(bin, case, default_cwd)
		.stdin(Stdio::null())
		.stdout(Stdio::piped())
		.stderr(Stdio::piped())
		.spawn()
		.expect("cannot run the binary");
	let (stdout, stderr) = (child.stdout.take().unwrap(), child.stderr.take().unwrap());
	// what exceeds the limit is not read, which ends the writer
	let errors = std::thread::spawn(move || {
		let mut v = Vec::new();
		let _ = stderr.take(OUTPUT_LIMIT).read_to_end(&mut v);
		v
	});
	let mut out = Vec::new();
	let _ = stdout.take(OUTPUT_LIMIT).read_to_end(&mut out);
	let err = errors.join().unwrap_or_default();
	let (mut status, mut usage) = (0i32, [0i64; 18]);
	// SAFETY: waits for our own child, which nobody else waits for; both pointers are to locals of the right size
	while unsafe { wait4(child.id() as i32, &mut status, 0, &mut usage) } < 0 {
		assert!(
			std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted,
			"cannot wait for the binary"
		);
	}
	Outcome {
		status: decode(status),
		out,
		err,
		writes: 0,
		// struct rusage: user seconds and microseconds, system seconds and microseconds, peak KiB, ...
		cpu_ms: ((usage[0] + usage[2]) * 1000 + (usage[1] + usage[3]) / 1000) as u32,
		peak_kib: usage[4] as u32,
		log: vec![],
	}
}

/// Both ends of a pseudo-terminal.
fn terminal() -> Option<(File, File)> {
	// SAFETY: plain libc calls on descriptors we own
	unsafe {
		let m = posix_openpt(2 | O_CLOEXEC);
		if m < 0 || grantpt(m) != 0 || unlockpt(m) != 0 {
			return None;
		}
		let mut name = [0i8; 128];
		if ptsname_r(m, name.as_mut_ptr(), 128) != 0 {
			return None;
		}
		let path: String = name
			.iter()
			.take_while(|c| **c != 0)
			.map(|c| *c as u8 as char)
			.collect();
		let slave = std::fs::OpenOptions::new()
			.read(true)
			.write(true)
			.open(path)
			.ok()?;
		Some((File::from_raw_fd(m), slave))
	}
}

#[derive(Clone, Debug, Hash)]
pub enum Stdin {
	Null,
	Closed,
	Text(String),
	File,
	Terminal,
}
/// What a process inherits besides its arguments and variables.
#[derive(Clone, Debug, Hash)]
pub struct Around {
	pub stdin: Stdin,
	pub umask: u32,
	pub nice: i32,
	pub extra_descriptors: usize,
	/// what the program is called, when not by its path
	pub arg0: String,
	/// standard error goes where standard output goes
	pub merged: bool,
	/// where the program lies, when not where it was built
	pub program: String,
	pub inherited: Vec<Inherited>,
}
impl Default for Around {
	fn default() -> Self {
		Around {
			stdin: Stdin::Null,
			umask: 0o022,
			nice: 0,
			extra_descriptors: 0,
			arg0: String::new(),
			merged: false,
			program: String::new(),
			inherited: vec![],
		}
	}
}
/// What a process has from its parent by the system's own account.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Inherited {
	/// another user and group, without any privilege
	User(u32),
	/// it may run on one processor only
	OneProcessor,
	/// `setrlimit`: the resource and its soft limit
	Limit(i32, u64),
	/// it ignores this signal
	Ignores(i32),
	/// this signal is blocked
	Blocks(i32),
	/// a session of its own, without a terminal
	NewSession,
	/// `personality(2)`
	Personality(u64),
	/// its batch or idle scheduling policy
	Policy(i32),
	/// an interval timer that will not fire in time
	Timer,
	NoNewPrivileges,
	/// not dumpable: /proc/self belongs to root
	NotDumpable,
	/// its name in the process list
	Name,
}
impl Inherited {
	/// In the child, before the program; false when the system does not let us.
	unsafe fn apply(self) -> bool {
		match self {
			Inherited::User(id) => setgroups(0, std::ptr::null()) == 0 && setgid(id) == 0 && setuid(id) == 0,
			Inherited::OneProcessor => {
				let mut set = [0u64; 16];
				if sched_getaffinity(0, 128, set.as_mut_ptr()) < 0 {
					return false;
				}
				let mut left = true;
				for w in &mut set {
					let one = if left { *w & w.wrapping_neg() } else { 0 };
					left &= one == 0;
					*w = one;
				}
				sched_setaffinity(0, 128, set.as_ptr()) == 0
			}
			Inherited::Limit(what, soft) => {
				let mut l = [0u64; 2];
				if getrlimit(what, &mut l) != 0 {
					return false;
				}
				l[0] = soft.min(l[1]);
				setrlimit(what, &l) == 0
			}
			Inherited::Ignores(s) => signal(s, 1) != usize::MAX,
			Inherited::Blocks(s) => {
				let set = [1u64 << (s - 1), 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0];
				sigprocmask(0, set.as_ptr(), std::ptr::null_mut()) == 0
			}
			Inherited::NewSession => setsid() >= 0,
			Inherited::Personality(p) => personality(p) >= 0,
			Inherited::Policy(p) => sched_setscheduler(0, p, &0) == 0,
			Inherited::Timer => alarm(50) < 100,
			Inherited::NoNewPrivileges => prctl(38, 1, 0, 0, 0) == 0,
			Inherited::NotDumpable => prctl(4, 0, 0, 0, 0) == 0,
			Inherited::Name => prctl(15, c"cron".as_ptr() as u64, 0, 0, 0) == 0,
		}
	}
}
/// A plain execution with other things inherited; None when the sandbox has no pseudo-terminals.
pub fn exec_around(bin: &str, case: &Case, default_cwd: &str, around: &Around) -> Option<Outcome> {
	let program = if around.program.is_empty() { bin } else { &around.program };
	let mut cmd = command(program, case, default_cwd);
	if !around.arg0.is_empty() {
		cmd.arg0(&around.arg0);
	}
	let mut keep: Vec<File> = Vec::new();
	let mut text = None;
	match &around.stdin {
		Stdin::Null => {
			cmd.stdin(Stdio::null());
		}
		Stdin::Closed => {
			cmd.stdin(Stdio::null());
		}
		Stdin::Text(t) => {
			let (r, w) = pipe();
			cmd.stdin(Stdio::from(r));
			text = Some((w, t.clone()));
		}
		Stdin::File => {
			cmd.stdin(Stdio::from(File::open(bin).ok()?));
		}
		Stdin::Terminal => {
			let (m, s) = terminal()?;
			cmd.stdin(Stdio::from(s));
			keep.push(m);
		}
	}
	let (out_r, out_w) = pipe();
	let err = if around.merged {
		cmd.stderr(Stdio::from(out_w.try_clone().ok()?));
		None
	} else {
		let (r, w) = pipe();
		cmd.stderr(Stdio::from(w));
		Some(r)
	};
	cmd.stdout(Stdio::from(out_w));
	let inherited = around.inherited.clone();
	let (umask_, nice_, extra, closed) =
		(around.umask, around.nice, around.extra_descriptors, matches!(around.stdin, Stdin::Closed));
	// SAFETY: only async-signal-safe calls
	unsafe {
		cmd.pre_exec(move || {
			// one that waits for somebody to type never ends
			alarm(60);
			umask(umask_);
			if nice_ != 0 {
				nice(nice_);
			}
			for _ in 0..extra {
				dup(2);
			}
			if closed {
				close(0);
			}
			if inherited.iter().all(|i| i.apply()) {
				Ok(())
			} else {
				Err(std::io::Error::from_raw_os_error(1))
			}
		});
	}
	let mut child = cmd.spawn().ok()?;
	drop(cmd); // and with it our copies of the descriptors
	if let Some((mut w, t)) = text {
		std::thread::spawn(move || {
			let _ = w.write_all(t.as_bytes());
		});
	}
	let errors = err.map(|mut f| {
		std::thread::spawn(move || {
			let mut v = Vec::new();
			let _ = f.read_to_end(&mut v);
			v
		})
	});
	let mut out = Vec::new();
	let _ = out_r.take(OUTPUT_LIMIT).read_to_end(&mut out);
	let err = errors.map(|t| t.join().unwrap_or_default()).unwrap_or_default();
	let st = child.wait().ok()?;
	Some(Outcome {
		status: match st.code() {
			Some(c) => Status::Exit(c),
			None => Status::Signal(st.signal().unwrap_or(0)),
		},
		out,
		err,
		writes: 0,
		cpu_ms: 0,
		peak_kib: 0,
		log: vec![],
	})
}

/// What standard output or standard error may be.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Sink {
	Pipe,
	/// a new file of this name
	File(&'static str),
	/// a file that has something in it, written to at its end
	Append,
	/// a file that has something in it, written over from its beginning
	Over,
	/// a file in which a place beyond its end is written to
	Sparse,
	Socket,
	Fifo,
	Terminal,
	Null,
}
const BEFORE: &[u8] = b"what was there\n\nbefore";
const OVER: usize = 3 << 20;
/// A plain execution with each of the outputs as given; None where the sandbox has no pseudo-terminals.
pub fn exec_sinks(bin: &str, case: &Case, default_cwd: &str, dir: &Path, out: Sink, err: Sink) -> Option<Outcome> {
	type Reader = Box<dyn FnOnce() -> Vec<u8> + Send>;
	let open = |sink: Sink, which: &str| -> Option<(Stdio, Reader)> {
		let drain = |mut f: Box<dyn Read + Send>, crlf: bool| -> Reader {
			let t = std::thread::spawn(move || {
				let mut v = Vec::new();
				let mut buf = [0u8; 65536];
				while let Ok(n) = f.read(&mut buf) {
					if n == 0 {
						break;
					}
					v.extend(&buf[..n]);
				}
				v
			});
			Box::new(move || {
				let v = t.join().unwrap_or_default();
				if crlf {
					String::from_utf8_lossy(&v).replace("\r\n", "\n").into_bytes()
				} else {
					v
				}
			})
		};
		let path = dir.join(match sink {
			Sink::File(name) => format!("{which}{name}"),
			_ => format!("{which}.log"),
		});
		let file = || {
			let mut o = std::fs::OpenOptions::new();
			o.read(true).write(true).create(true);
			o
		};
		Some(match sink {
			Sink::Pipe => {
				let (r, w) = pipe();
				(Stdio::from(w), drain(Box::new(r), false))
			}
			Sink::Socket => {
				let (a, b) = std::os::unix::net::UnixStream::pair().ok()?;
				(Stdio::from(std::os::fd::OwnedFd::from(a)), drain(Box::new(b), false))
			}
			Sink::Terminal => {
				let (m, s) = terminal()?;
				(Stdio::from(s), drain(Box::new(m), true))
			}
			Sink::Null => (Stdio::null(), Box::new(Vec::new)),
			Sink::Fifo => {
				let c = std::ffi::CString::new(path.to_string_lossy().as_bytes()).ok()?;
				// SAFETY: a path that ends in a NUL
				unsafe { mkfifo(c.as_ptr().cast(), 0o600) };
				let p = path.clone();
				let reader = std::thread::spawn(move || File::open(p));
				let w = std::fs::OpenOptions::new().write(true).open(&path).ok()?;
				let r = reader.join().ok()?.ok()?;
				(Stdio::from(w), drain(Box::new(r), false))
			}
			Sink::File(_) => (
				Stdio::from(file().open(&path).ok()?),
				Box::new(move || std::fs::read(path).unwrap_or_default()),
			),
			Sink::Append => {
				std::fs::write(&path, BEFORE).ok()?;
				(
					Stdio::from(file().append(true).open(&path).ok()?),
					Box::new(move || match std::fs::read(path).unwrap_or_default().strip_prefix(BEFORE) {
						Some(rest) => rest.to_vec(),
						None => b"(what was there before is gone)".to_vec(),
					}),
				)
			}
			Sink::Over => {
				std::fs::write(&path, vec![0xEE; OVER]).ok()?;
				(
					Stdio::from(file().open(&path).ok()?),
					Box::new(move || {
						let mut v = std::fs::read(path).unwrap_or_default();
						if v.len() != OVER {
							return b"(the file has another size)".to_vec();
						}
						let n = v.iter().rposition(|b| *b != 0xEE).map_or(0, |n| n + 1);
						v.truncate(n);
						v
					}),
				)
			}
			Sink::Sparse => {
				use std::io::Seek;
				let mut f = file().open(&path).ok()?;
				f.seek(std::io::SeekFrom::Start(100_000)).ok()?;
				(
					Stdio::from(f),
					Box::new(move || {
						let v = std::fs::read(path).unwrap_or_default();
						v.get(100_000..).unwrap_or_default().to_vec()
					}),
				)
			}
		})
	};
	std::fs::create_dir_all(dir).ok()?;
	let (o, read_out) = open(out, "out")?;
	let (x, read_err) = open(err, "err")?;
	let mut cmd = command(bin, case, default_cwd);
	cmd.stdin(Stdio::null()).stdout(o).stderr(x);
	let mut child = cmd.spawn().ok()?;
	drop(cmd); // and with it our copies of the descriptors
	let st = child.wait().ok()?;
	let o = Outcome {
		status: match st.code() {
			Some(c) => Status::Exit(c),
			None => Status::Signal(st.signal().unwrap_or(0)),
		},
		out: read_out(),
		err: read_err(),
		writes: 0,
		cpu_ms: 0,
		peak_kib: 0,
		log: vec![],
	};
	let _ = std::fs::remove_dir_all(dir);
	Some(o)
}

/// A plain execution with standard output on a pseudo-terminal (in raw-ish
/// mode: the terminal's `\r\n` is turned back into `\n`).
pub fn exec_tty(bin: &str, case: &Case, default_cwd: &str, size: Option<(u16, u16)>) -> Option<Outcome> {
	let (master, slave) = terminal()?;
	if let Some((rows, columns)) = size {
		// SAFETY: TIOCSWINSZ reads a struct winsize of four u16
		unsafe { ioctl(slave.as_raw_fd(), 0x5414, [rows, columns, 0, 0].as_ptr()) };
	}
	let mut child = command(bin, case, default_cwd)
		.stdin(Stdio::null())
		.stdout(Stdio::from(slave))
		.stderr(Stdio::piped())
		.spawn()
		.ok()?;
	// Command keeps no copy of the slave after spawn: the master sees EIO at the end
	let mut out = Vec::new();
	let mut m = master;
	let mut buf = [0u8; 65536];
	loop {
		match m.read(&mut buf) {
			Ok(0) | Err(_) => break,
			Ok(n) => out.extend(&buf[..n]),
		}
	}
	let mut err = Vec::new();
	child.stderr.take()?.read_to_end(&mut err).ok()?;
	let st = child.wait().ok()?;
	let mut text = Vec::with_capacity(out.len());
	let mut i = 0;
	while i < out.len() {
		if out[i] == b'\r' && out.get(i + 1) == Some(&b'\n') {
			i += 1;
			continue;
		}
		text.push(out[i]);
		i += 1;
	}
	Some(Outcome {
		status: match st.code() {
			Some(c) => Status::Exit(c),
			None => Status::Signal(st.signal().unwrap_or(0)),
		},
		out: text,
		err,
		writes: 0,
		cpu_ms: 0,
		peak_kib: 0,
		log: vec![],
	})
}
