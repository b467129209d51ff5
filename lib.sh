# Sourced by check, replay and setup.
export HOME=${HOME:-/root}
export PATH=/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=1
VERIF=$(pwd)
REPO=${HZ_REPO:-/repo}
export HZ_REPO=$REPO

# build_hz OUT [go build flags]: builds the harness against $REPO. The module
# files are copied, so that go may complete them without changing /verif.
build_hz() {
	local out=$1; shift
	local mod; mod=$(dirname "$out")/mod
	mkdir -p "$mod"
	sed "s|=> /repo|=> $REPO|; s|^go 1.26$|go ${HZ_LANG:-1.26}|" "$VERIF/harness/go.mod" > "$mod/go.mod"
	cp "$VERIF/harness/go.sum" "$mod/go.sum"
	(cd "$VERIF/harness" && go build -modfile="$mod/go.mod" "$@" -o "$out" ./cmd/hz)
}

# build_fuzz OUT: the target of the coverage-guided search.
build_fuzz() {
	(cd "$VERIF/harness" && go test -c -fuzz=FuzzCase -modfile="$(dirname "$1")/mod/go.mod" -o "$1" ./fuzz)
}

# build_for ID DIR: builds what the property needs into DIR.
build_for() {
	case $1 in
	C14|C17) build_hz "$2/hz" -race ;;
	C18|C19|C28|C34) build_hz "$2/hz" && (cd "$REPO" && GOFLAGS=-mod=readonly go build -o "$2/protoc-gen-golite" ./cmd/protoc-gen-golite) ;;
	C30|C31) build_hz "$2/hz" && build_variants "$2" $("$2/hz" variants "$1") ;;
	C22) build_hz "$2/hz" && build_regen "$2/regen" ;;
	*) build_hz "$2/hz" ;;
	esac || return
	[ "${VERIF_TIER:-quick}" != thorough ] || [ -z "$("$2/hz" fuzzsubs "$1")" ] || build_fuzz "$2/fuzz.test"
}

# build_regen DIR: a copy of the repository with regenerated codecs, and the
# harness built against it. DIR/status says "ok" or what failed.
build_regen() {
	mkdir -p "$1/src" || return 1
	tar -C "$REPO" --exclude=./.git -cf - . | tar -C "$1/src" -xf - || return 1
	if ! (cd "$1/src/proto" && GOFLAGS=-mod=readonly go generate .) >"$1/log" 2>&1; then
		(echo "the generators fail:"; head -c 1500 "$1/log") >"$1/status"
	elif ! (REPO=$1/src; build_hz "$1/hz") >"$1/log" 2>&1; then
		(echo "the regenerated code does not compile:"; head -c 1500 "$1/log") >"$1/status"
	else
		echo ok >"$1/status"
	fi
}

# build_variants DIR VARIANT...: builds of the harness for another platform, or
# by another version of Go. DIR/hz-VARIANT.log says so where the repository, not
# the harness, does not build.
build_variants() {
	local dir=$1 v pids=; shift
	for v; do
		(
			case $v in
			386) export GOARCH=386 CGO_ENABLED=0; tool=go ;;
			*) tool=$v ;;
			esac
			if ! (cd "$REPO" && GOFLAGS=-mod=readonly "$tool" build ./proto) >"$dir/$v.log" 2>&1 && (cd "$REPO" && GOARCH= GOFLAGS=-mod=readonly go build ./proto) >/dev/null 2>&1; then
				head -c 1500 "$dir/$v.log" >"$dir/hz-$v.log"
				exit 0
			fi
			mkdir -p "$dir/mod-$v"
			[ "$tool" = go ] || export HZ_LANG=1.23
			go() { command "$tool" "$@"; }
			build_hz "$dir/mod-$v/hz" || exit 1
			mv "$dir/mod-$v/hz" "$dir/hz-$v"
		) &
		pids="$pids $!"
	done
	for v in $pids; do wait "$v" || return 1; done
}
