#!/bin/bash
# run.sh <property> [options]: build the check of <property> from /repo's current tree and run it.
cd "$(dirname "$0")" || exit 2
ROOT=$PWD
ID=$1; shift
REPO=${DD_REPO:-/repo}
SRC=$(ls checks/"$ID"_*.cpp 2>/dev/null | head -1)
[ -n "$SRC" ] || { echo "no such check: $ID" >&2; exit 2; }
BUILD=$(mktemp -d "${TMPDIR:-/tmp}/ddmc.XXXXXX") || exit 2
trap 'rm -rf "$BUILD"' EXIT
option() { sed -n "s@^// $1: @@p" "$2" | head -1; }
LINK=$(option LINK "$SRC")
EXTRA=$(option FLAGS "$SRC")
PARTS=$(option PARTS "$SRC") # other checks whose phases belong to this one
case "${VERIF_TIER:-quick} $*" in *thorough*) PARTS="$PARTS $(option PARTS-THOROUGH "$SRC")";; esac
# same floating point and NDEBUG settings as the project's release build; stack and heap poisoned; bounds-checked STL
CXX="g++ -std=c++17 -O1 -DNDEBUG -fno-math-errno -ffinite-math-only -fno-trapping-math -fno-pie -no-pie -w"
CXX="$CXX -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -I$ROOT/mc -I$REPO/include"
OBJ="$BUILD/check.o"
{ # a second part with options of its own; linked first
  WITH=$(option WITH "$SRC")
  if [ -n "$WITH" ]; then
    OBJ="$BUILD/second.o $OBJ"
    ( $CXX -x c++ $WITH -c -o "$BUILD/first.o" && nm "$BUILD/first.o" | awk '$2 == "W" { print $3 }' > "$BUILD/own" &&
      ld -r --force-group-allocation "$BUILD/first.o" -o "$BUILD/second.o" && objcopy --localize-symbols="$BUILD/own" "$BUILD/second.o" ) & SECOND=$!
  fi
  if [ -n "$PARTS" ]; then
    { for p in $PARTS; do echo "int part_$p(int, char**);"; done
      echo "int (*mcParts[])(int, char**) = {"; for p in $PARTS; do echo "part_$p,"; done; echo "nullptr};"; } > "$BUILD/parts.cpp"
    for p in $PARTS; do OBJ="$OBJ $BUILD/$p.o"; done
    OBJ="$OBJ $BUILD/parts.o"
    { echo "$CXX $EXTRA -c $SRC -o $BUILD/check.o"
      for p in $PARTS; do echo "$CXX $EXTRA $(option FLAGS checks/"$p"_*.cpp) -DMC_SECOND -Dmain=part_$p -c $(ls checks/"$p"_*.cpp) -o $BUILD/$p.o"; done
      echo "$CXX -c $BUILD/parts.cpp -o $BUILD/parts.o"; } | tr '\n' '\0' | xargs -0 -n1 -P"$(nproc)" sh -c 'exec $0'
  else
    $CXX $EXTRA -c "$SRC" -o "$BUILD/check.o"
  fi && { [ -z "$WITH" ] || wait $SECOND; } && g++ -no-pie $OBJ -o "$BUILD/check" $LINK
} 2> "$BUILD/err" || { echo "the check of $ID does not build against $REPO/include" >&2; head -40 "$BUILD/err" >&2; exit 2; }
"$BUILD/check" --root "$ROOT" "$@"
