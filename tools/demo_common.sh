# Builds demo.cpp (beside this file) together with /repo's sources: build OUT VARIANT FLAGS...
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
build() {
  local out=$1 variant=$2; shift 2
  local inc=(-I/repo/include -I/repo/_build/$variant/include -I/repo/src)
  local list
  if [ "$variant" = fiber ]; then list=$(find /repo/src -name '*.cpp')
  else list=$(find /repo/src -name '*.cpp' | grep -v -e '/fault/fiber/' -e '/fault/random_device' -e '/fault/atomic.cpp' -e '/fault/condition_variable'); fi
  export CXXARGS="-std=c++20 -fcoroutines -w $* ${inc[*]}" TMPO=$tmp/$(basename "$out").o
  mkdir -p "$TMPO"
  (echo "$here/demo.cpp"; echo "$list") | xargs -P 8 -I{} sh -c 'g++ $CXXARGS -c {} -o $TMPO/$(echo {} | tr / _).o' || exit 3
  g++ -std=c++20 "$@" "$TMPO"/*.o -o "$out" -pthread || exit 3
}
