# Sourced: builds the engine for the committed sources once, sets E to its place.
V=${V:-$PWD}
mkdir -p "$V/build"
H=$(cat "$V"/engine/*.cpp "$V"/engine/*.h "$V"/engine/hooks.c "$V"/engine/Makefile | sha256sum | cut -c1-16)
E=$V/build/engine-$H
exec 9> "$V/build/lock"
flock 9
if [ ! -e "$E/ok" ]; then
	for d in "$V"/build/engine-*; do [ -d "$d" ] && rm -rf "${d:?}"; done
	make -s -C "$V/engine" -j8 OUT="$E" >&2 && touch "$E/ok"
fi
flock -u 9
exec 9>&-
[ -e "$E/ok" ]
