#!/bin/bash
# check.sh ID : decides property ID on /repo's current working tree.
# Tier and seed come from VERIF_TIER and VERIF_SEED.  REPO=dir checks another tree.
cd "$(dirname "$0")" || exit 3
V=$PWD
R=${REPO:-/repo}
ID=$1
TIER=${VERIF_TIER:-quick}
. ./engine.sh || exit 3
F=
T=$(mktemp -d "$V/build/run.XXXXXX") || exit 3
chmod 755 "$T"
W=$T/w
S=$(mktemp -d /tmp/gaia-verif.XXXXXX) || exit 3
chmod 755 "$S"
trap 'chmod -R u+rwx "$S" 2>/dev/null; rm -rf "${T:?}" "${S:?}"; [ -n "$F" ] && rm -rf "${F:?}"' EXIT
trap 'exit 3' INT TERM
mkdir -p "$W" evidence
WRAP=
for f in fopen fopen64 fclose setvbuf setbuf setlinebuf write dprintf vdprintf __dprintf_chk __vdprintf_chk exit _exit _Exit quick_exit atexit on_exit err errx verr verrx error getenv secure_getenv time clock gettimeofday clock_gettime getpid getppid rand random arc4random srand srandom isatty malloc calloc free realloc reallocarray strdup strndup fileno fileno_unlocked fstat stat lstat fstat64 stat64 access truncate ftruncate truncate64 ftruncate64 getline getdelim __getdelim argp_parse; do WRAP="$WRAP,--wrap=$f"; done
ASAN=0 BUDGET=${GAIA_BUDGET:-$([ "$TIER" = thorough ] && echo 3600 || echo 300)}
FLAGS="-O3 -g -std=c11 -w -I$R/src -fPIC"
HOOKS=$E/hooks.o BIN=
[ "$ID" = C08 ] && BIN="-fsanitize=signed-integer-overflow -fsanitize-undefined-trap-on-error"
ENGINE=$E/engine
case $ID in
C17|C18) ASAN=1
	FLAGS="-O1 -g -std=c11 -w -I$R/src -fPIC -fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer"
	HOOKS=$E/hooks_asan.o ENGINE=$E/engine_asan
	export ASAN_OPTIONS=log_path=$S/report:detect_leaks=0:quarantine_size_mb=8:thread_local_quarantine_size_kb=256:malloc_context_size=4:allocator_may_return_null=1:detect_stack_use_after_return=1
	export UBSAN_OPTIONS=log_path=$S/report:print_stacktrace=1 ;;
esac
pids=
for f in "$R"/src/*.c; do
	b=$(basename "$f" .c)
	d=
	[ "$b" = main ] && d=-Dmain=gaia_main
	gcc $FLAGS $d -c "$f" -o "$T/$b.o" & pids="$pids $!"
	case $ID in C08|C16|C20|C21|C26|C31|C34|C35) gcc -O3 -g -std=c11 -w $BIN "-I$R/src" -c "$f" -o "$T/$b.bin.o" & pids="$pids $!" ;; esac
done
for p in $pids; do wait "$p" || { echo "cannot compile $R" >&2; exit 3; }; done
objs=
for f in "$R"/src/*.c; do objs="$objs $T/$(basename "$f" .c).o"; done
X=
[ $ASAN = 1 ] && X="-fsanitize=address,undefined"
gcc $X -shared $objs "$HOOKS" -o "$T/libgaia.so" "-Wl$WRAP" -Wl,-z,now -Wl,-z,norelro -Wl,-Bsymbolic -lm || { echo "cannot link $R" >&2; exit 3; }
case $ID in C08|C16|C20|C21|C26|C31|C34|C35) gcc $BIN "$T"/*.bin.o -lm -o "$T/gaia" || { echo "cannot link $R" >&2; exit 3; } ;; esac
# file operations beyond those the in-memory files can answer: use real files
REAL=0
nm -D -u "$T/libgaia.so" | grep -Eq ' (open|open64|openat|openat64|creat|creat64|freopen|freopen64|fdopen|tmpfile|tmpfile64|mkstemp|mkstemp64|unlink|unlinkat|remove|rename|renameat|link|symlink|pwrite|pwrite64|read|pread|pread64|__open_2|__open64_2|__openat_2|__openat64_2|__read_chk|__pread_chk|__pread64_chk|lseek|lseek64|mmap|mmap64|chmod|fchmod|mkdir|rmdir|fstatat|statx|fallocate|posix_fallocate|realpath|__realpath_chk|canonicalize_file_name|chdir|opendir|system|popen|fork|vfork)(@|$)' && REAL=1
[ -n "$GAIA_REAL" ] && REAL=1
[ $REAL = 1 ] && F=$(mktemp -d /dev/shm/gaia-verif.XXXXXX 2>/dev/null) && chmod 755 "$F"
rm -f "$V/evidence/$ID.json"
rm -rf "$V/replays/$ID"
mkdir -p "$V/replays"
"$ENGINE" --prop "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --lib "$T/libgaia.so" --bin "$T/gaia" --evidence "$V/evidence/$ID.json" \
	--replays replays --tmp "${F:-$S}" --asan $ASAN --real $REAL --example "$R/example" --budget "$BUDGET" --workers "${GAIA_WORKERS:-8}" ${REPLAY:+--replay "$REPLAY"}
rc=$?
if [ $ASAN = 1 ] && [ $rc != 0 ]; then
	r=$(ls -tr "$S"/report.* 2>/dev/null | tail -1)      # the report of the replayed case
	[ -n "$r" ] && head -20 "$r" >&2
fi
exit $rc
