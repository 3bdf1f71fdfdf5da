#!/bin/sh
# newcrate.sh NAME contract-dir...   : create a harness crate skeleton depending on contracts (paths under /repo)
n=$1; shift
d=/verif/harness/$n; mkdir -p $d/src
{ printf '[package]\nname = "%s"\nversion.workspace = true\nedition.workspace = true\n\n[dependencies]\nsx.workspace = true\nchain.workspace = true\ncosmwasm-std.workspace = true\nastroport.workspace = true\ncw20.workspace = true\nserde.workspace = true\n' $n
for l in "$@"; do
  c=$(sed -n 's/^name = "\(.*\)"/\1/p' /repo/$l/Cargo.toml | head -1)
  if grep -q '^library' /repo/$l/Cargo.toml; then f=', features = ["library"]'; else f=; fi
  echo "$c = { path = \"/repo/$l\"$f }"
done; } > $d/Cargo.toml
printf 'fn main() {\n    #[cfg(not(target_arch = "riscv64"))]\n    sx::native_main(%s::ENTRIES);\n}\n' $n > $d/src/main.rs
cd /verif/harness && [ -f $d/src/lib.rs ] && cargo metadata --offline --format-version 1 2>&1 >/dev/null | grep error -A4
