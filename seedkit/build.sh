# builds the wdt sources of the repository in $PWD plus the given demo programs
# usage: . build.sh; build_demo main.cpp exe   (objects are kept in $W/o)
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
repo=$PWD
W=$(mktemp -d /tmp/wdtdemo.XXXXXX)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/inc" "$W/cfg/wdt" "$W/o" "$W/scratch"
ln -s "$repo" "$W/inc/wdt"
python3 "$here/mkconfig.py" "$repo" "$W/cfg/wdt/WdtConfig.h" || exit 3
FL="-O0 -std=c++17 -w -include $here/shim/prelude.h -I$here/shim/folly -I$W/cfg -I$W/inc -I$repo/util"
LIBS="-lglog -lgflags -lcrypto -lssl -lpthread -lboost_system"
build_objs() {
  local f
  { for f in "$repo"/*.cpp "$repo"/util/*.cpp; do
      case $f in */wdtCmdLine.cpp) continue;; esac
      echo "$f"
    done; } | xargs -P 8 -I{} sh -c "g++ $FL $OBJFL -c {} -o $W/o/\$(basename {} .cpp).o || exit 255" || exit 3
}
build_demo() {
  g++ $FL $OBJFL -I"$here" "$here/$1" "$W"/o/*.o -o "$W/$2" $LIBS || exit 3
}
