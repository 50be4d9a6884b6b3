#!/bin/bash
# check.sh build      builds everything the checks need (pemv from /repo's working tree, the explorer, the fork server)
# check.sh <ID>       builds what is out of date and runs the check of one property
# Exit status of a check: 0 held, 1 violated (with a VIOLATION line), anything else is an error of the check.
set -u
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
build=$here/build
repo=${PEMV_REPO:-/repo}
mkdir -p "$build"

rust_env=(
	CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
	RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
)
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

hash_of() { # of the names and contents of everything that can reach the build, in a stable order
	(cd "$1" && shift && find "$@" -type f -print0 2>/dev/null | sort -z | xargs -0 -r sha256sum | sha256sum)
}

build_shim() {
	local want
	want=$(hash_of "$here/harness" shim)
	[ -f "$build/shim.so" ] && [ "$(cat "$build/shim.hash" 2>/dev/null)" = "$want" ] && return 0
	gcc -O2 -Wall -Wextra -shared -fPIC -o "$build/shim.so" "$here/harness/shim/forkshim.c" -ldl || return 1
	echo "$want" >"$build/shim.hash"
}

build_mc() {
	local want
	want=$(hash_of "$here/harness" src Cargo.toml Cargo.lock)
	[ -x "$build/mc/release/mc" ] && [ "$(cat "$build/mc.hash" 2>/dev/null)" = "$want" ] && return 0
	# cargo goes by modification times; a file put back with an old one must be seen all the same
	find "$build/mc/release/.fingerprint" -maxdepth 1 -name 'mc-*' -exec rm -r {} + 2>/dev/null
	(cd "$here/harness" && env "${rust_env[@]}" cargo build --release --locked --offline --target-dir "$build/mc") || return 1
	echo "$want" >"$build/mc.hash"
}

build_pemv() {
	local want
	want=$(hash_of "$repo" src build.rs Cargo.toml Cargo.lock .cargo .env rust-toolchain rust-toolchain.toml)
	[ -x "$build/pemv/debug/pemv" ] && [ "$(cat "$build/pemv.hash" 2>/dev/null)" = "$want" ] && return 0
	rm -f "$build/pemv.hash"
	find "$build/pemv/debug/.fingerprint" -maxdepth 1 -name 'pemv-*' -exec rm -r {} + 2>/dev/null
	(cd "$repo" && env "${rust_env[@]}" \
		CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=2 \
		RUSTFLAGS='--check-cfg=cfg(tarpaulin) --check-cfg=cfg(tarpaulin_include)' \
		cargo build --locked --offline --bin pemv --target-dir "$build/pemv") || return 1
	echo "$want" >"$build/pemv.hash"
}

build_all() {
	(
		flock 9
		{ build_shim && build_mc && build_pemv; } >"$build/log" 2>&1 || {
			cat "$build/log"
			exit 1
		}
	) 9>"$build/lock"
}

case ${1:-} in
build) build_all ;;
'' | -*)
	echo "usage: $0 build | $0 <property id>" >&2
	exit 2
	;;
*)
	build_all || {
		echo "cannot build" >&2
		exit 2
	}
	scratch=$(mktemp -d "${TMPDIR:-/tmp}/pemv-check.XXXXXX") || exit 2
	chmod 755 "$scratch"
	trap 'rm -rf "$scratch"' EXIT
	cd "$scratch" || exit 2
	TMPDIR=$scratch "$build/mc/release/mc" "$1"
	exit $?
	;;
esac
