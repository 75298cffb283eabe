# fielddemo <dir of demo> <gen|asm> <prime>: renders the library of the current tree, builds demo.cpp with it and runs it
fielddemo() {
  local here="$1" kind="$2" q="$3" t
  t=$(mktemp -d)
  trap "rm -rf $t" EXIT
  node "$here/render.js" "$(pwd)" "$q" Fr "$t" || return 9
  if [ "$kind" = asm ]; then
    nasm -felf64 "$t/fr.asm" -o "$t/a.o" && g++ -w -std=c++11 -O1 -no-pie -DUSE_ASM -DARCH_X86_64 -I"$t" -I"$here" "$here/demo.cpp" "$t/fr.cpp" "$t/a.o" -lgmp -o "$t/demo" || return 9
  else
    g++ -w -std=c++11 -O1 -I"$t" -I"$here" "$here/demo.cpp" "$t/fr.cpp" "$t/fr_generic.cpp" "$t/fr_raw_generic.cpp" -lgmp -o "$t/demo" || return 9
  fi
  timeout 120 "$t/demo"
}
