A = 'engine/src/algo/'
D = 'engine/src/datastr/'
S = [
dict(id='c06-truncated-lines-end-silently', prop='C06',
     needs='An input file with a line that cannot be read (invalid UTF-8 or an I/O error) in the middle.',
     breaks='The converter stops at the unreadable line and reports success with a truncated output.',
     edits=[('conversion/src/bin/tpgr_upscaling.rs', '''    for line in lines {
        let line = line.unwrap();
''', '''    for line in lines.map_while(|line| line.ok()) {
''')],
     script=r'''#!/bin/bash
R=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
cd "$R" || exit 3
CARGO_TARGET_DIR="$T/target" CARGO_INCREMENTAL=0 cargo build --offline --locked -q -p conversion --bin tpgr_upscaling 2> "$T/log" || { tail "$T/log"; exit 4; }
B=$T/target/debug/tpgr_upscaling
printf '2 1\n0 1 2 1.0 2.0\n1 0 2 1.0 2.0\n' > "$T/good"
"$B" "$T/good" "$T/out" || exit 1
[ "$(wc -l < "$T/out")" = 3 ] || exit 1
printf '2 1\n0 1 2 1.0 2.0\n1 0 2 \xff\xfe 2.0\n0 1 1 1.0\n' > "$T/bad"
if "$B" "$T/bad" "$T/out2" 2> /dev/null; then
  echo "unreadable input accepted"
  exit 1
fi
exit 0
'''.lstrip(), demo=''),
]
