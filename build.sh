#!/bin/bash
# Builds the simulator from /repo's working tree into /verif/build (ignored by git).
# crasm's own sources are compiled unchanged; the names of the C library functions through
# which they meet the outside world are bound to the simulator (sim/kernel.cpp).
set -e
unset MAKEFLAGS MAKELEVEL MFLAGS
export LC_ALL=C
V=$(cd "$(dirname "$0")" && pwd)
SRC=${CRASM_SRC:-/repo/src}
B=${SIM_BUILD:-$V/build}
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
SEAM="fopen fopen64 fclose fdopen freopen freopen64 tmpfile tmpfile64 fileno open open64 openat openat64 creat creat64 read
write close lseek lseek64 unlink unlinkat remove rename renameat link mkdir mkstemp mkstemp64 truncate truncate64
ftruncate ftruncate64 fsync fdatasync stat stat64 lstat lstat64 fstat fstat64 access isatty malloc calloc
realloc strdup strndup free exit _exit _Exit abort atexit time gettimeofday clock_gettime clock getpid rand random
srand srandom getenv secure_getenv sleep usleep symlink rmdir mkfifo chmod fchmod system popen fork vfork execvp execv execve
execlp execl kill flock lockf fcntl fcntl64 pread pread64 pwrite pwrite64 writev readv mmap mmap64 dup dup2 getcwd chdir
opendir drand48 lrand48 mrand48 arc4random getrandom getppid getuid geteuid gethostname nanosleep alarm
getdelim getline asprintf vasprintf"
ALIAS=
for s in $SEAM __getdelim __asprintf_chk __vasprintf_chk __read_chk __open_2 __open64_2 __isoc99_fopen; do
    n=$s
    case $s in
        __read_chk) n=read_chk ;; __open*) n=open ;; __isoc99_fopen) n=fopen ;;
        lstat*|stat64) n=stat ;; fdatasync) n=fsync ;; _Exit) n=_exit ;; secure_getenv) n=getenv ;;
        vfork) n=fork ;; __getdelim) n=getdelim ;; exec*) n=execvp ;; lrand48|mrand48) n=random ;; geteuid) n=getuid ;; *64) n=${s%64} ;;
    esac
    echo "$s simw_$s"
    [ "$n" = "$s" ] || ALIAS="$ALIAS -Wl,--defsym=simw_$s=simw_$n"
done > "$B/seam.tmp"

sum() { cat "$V/build.sh" "$@" 2>/dev/null | sha256sum | cut -c1-32; }
# unit NAME COMPILER FLAGS...: crasm as one relocatable object with entry point crasm_main_NAME
unit() {
    local name=$1 entry=${1%%-*} cc=$2; shift 2
    local d="$B/u$name" want f pids=() p
    want="$(sum "$SRC"/*.[ch]) $cc $*"
    [ -f "$d/done" ] && [ "$(cat "$d/done")" = "$want" ] && return 0
    rm -rf "${d:?}"; mkdir -p "$d"
    for f in "$SRC"/*.c; do
        $cc "$@" -w -fno-pie -fsanitize-coverage=trace-pc -c "$f" -o "$d/$(basename "$f" .c).o" & pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p" || { echo "build.sh: crasm does not compile" >&2; return 1; }; done
    ld -r -o "$d/all.o" "$d"/*.o
    { cat "$B/seam.tmp"; echo "main crasm_main_$entry"; } > "$d/seam"
    objcopy --redefine-syms="$d/seam" "$d/all.o"
    objcopy --keep-global-symbol="crasm_main_$entry" "$d/all.o" "$d/crasm.obj"
    echo "$want" > "$d/done"
}
cxx() { # own sources, optional flags
    local out=$1; shift
    local want f o pids=() p
    for f in kernel gen checks cases main; do
        [ -f "$V/sim/$f.cpp" ] || continue
        o="$B/$out.$f.o"
        want="$(sum "$V"/sim/*.h "$V/sim/$f.cpp") $*"
        [ -f "$o.sum" ] && [ "$(cat "$o.sum")" = "$want" ] && continue
        rm -f "$o.sum"
        { g++ -std=c++17 -O2 -g1 -Wall -Wextra -fno-pie "$@" -c "$V/sim/$f.cpp" -o "$o" && echo "$want" > "$o.sum"; } & pids+=($!)
    done
    for p in "${pids[@]}"; do wait "$p" || { echo "build.sh: simulator does not compile" >&2; return 1; }; done
}
(unit 0 gcc -O -g1) & p0=$!
(unit 1 gcc -O2 -g1 -ftrivial-auto-var-init=pattern) & p1=$!
(unit 2 gcc -O0 -g1 -ftrivial-auto-var-init=zero) & p2=$!
(unit 0-san gcc -O1 -g1 -U_FORTIFY_SOURCE -fsanitize=address,bounds -fno-sanitize-recover=all -fno-omit-frame-pointer) & p3=$!
(cxx sim) & p4=$!
(cxx san -DSIM_ASAN -fsanitize=address) & p5=$!
for p in $p0 $p1 $p2 $p3 $p4 $p5; do wait $p; done
link() { # only when something changed
    local out=$1; shift
    local want f fs=(); for f in "$@"; do case $f in -*) ;; *) fs+=("$f") ;; esac; done
    want="$* $(cat "${fs[@]}" | sha256sum)"
    [ -x "$B/$out" ] && [ "$(cat "$B/$out.sum" 2>/dev/null)" = "$want" ] && return 0
    g++ -no-pie -Wl,-z,now $ALIAS -o "$B/$out" "$@" -lm && echo "$want" > "$B/$out.sum"
}
link simcheck "$B"/sim.*.o "$B/u0/crasm.obj" "$B/u1/crasm.obj" "$B/u2/crasm.obj" & p0=$!
link simsan "$B"/san.*.o "$B/u0-san/crasm.obj" -fsanitize=address,undefined & p1=$!
wait $p0; wait $p1
