#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: ordinary `cargo check` compilation, then the same crate again printing its MIR.
name=; t=
for ((i=1;i<=$#;i++)); do
  j=$((i+1))
  [ "${!i}" = --crate-name ] && name=${!j}
  [ "${!i}" = --crate-type ] && t=${!j}
done
"$@" -Awarnings || exit $?
case "$SA_CRATES" in
  '*')
    if [ "$t" != proc-macro ] && [ "$name" != build_script_build ]; then
      "$@" -Awarnings -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Cdebug-assertions=off -Coverflow-checks=off -o "$SA_OUT/$CARGO_PKG_NAME.$name.$t.mir" || exit $?
    fi
    exit 0 ;;
esac
case ",$SA_CRATES," in
  *",$name.$t,"*)
    "$@" -Awarnings -Zunpretty=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Cdebug-assertions=off -Coverflow-checks=off -o "$SA_OUT/$name.$t.mir" || exit $?
    ;;
esac
exit 0
