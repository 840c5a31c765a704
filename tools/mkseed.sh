#!/bin/bash
# mkseed.sh ID: (re)assembles the self-contained demonstration kit of seeded/ID around its demo.rs.
set -eu
ROOT=$(cd "$(dirname "$0")/.." && pwd)
D=$ROOT/seeded/$1
[ -f "$D/demo.rs" ] || { echo "no $D/demo.rs" >&2; exit 1; }
K=$D/kit
rm -rf "$K"
mkdir -p "$K/demo/src"
H=$ROOT/harness
cp -r "$H/mango-v4" "$H/margin-trade" "$H/shims" "$H/rust-toolchain.toml" "$H/Cargo.lock" "$K/"
cat >"$K/Cargo.toml" <<'T'
[workspace]
members = ["mango-v4", "demo"]
resolver = "2"

[profile.dev]
opt-level = 0
debug = 0
T
sed -e 's/^name = "sim"/name = "demo"/' "$H/sim/Cargo.toml" >"$K/demo/Cargo.toml"
python3 - "$K/Cargo.lock" <<'T'
import sys
p = sys.argv[1]
s = open(p).read().replace('name = "sim"', 'name = "demo"')
open(p, "w").write(s)
T
cp -r "$H/sim/src/svm.rs" "$H/sim/src/st.rs" "$H/sim/src/pt" "$ROOT/tools/kit/env.rs" "$K/demo/src/"
sed -i '/crate::adversary::/d' "$K/demo/src/pt/"*.rs
mkdir "$K/demo/src/cases"
cp "$H/sim/src/cases/test_serum.rs" "$K/demo/src/cases/"
sed -n '/^pub mod/!p' "$H/sim/src/cases/mod.rs" >"$K/demo/src/cases/mod.rs"
echo "pub mod test_serum;" >>"$K/demo/src/cases/mod.rs"
cat >"$K/demo/src/main.rs" <<'T'
#![allow(clippy::all, dead_code, unused)]
#[macro_use]
pub mod svm;
#[macro_use]
pub mod pt;
pub mod st;
pub mod cases;
pub mod env;
pub mod prelude {
    pub use crate::pt::mango_setup::*;
    pub use crate::pt::*;
    pub use crate::env::*;
    pub use crate::st::{f, native_pos, State};
    pub use crate::{assert_eq_f64, assert_eq_fixed_f64};
    pub use anchor_lang::prelude::Pubkey;
    pub use fixed::types::I80F48;
    pub use itertools::Itertools;
    pub use mango_v4::{error::MangoError, state::*};
    pub use solana_sdk::transport::TransportError;
}
mod scenario;
fn main() {
    scenario::run();
    println!("the property held");
}
T
cp "$D/demo.rs" "$K/demo/src/scenario.rs"
cat >"$D/demo.sh" <<'T'
#!/bin/bash
# Builds the scenario in kit/ against the program source in the current directory and runs it.
set -eu
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d /tmp/demo.XXXXXX)
trap 'cd /; rm -rf "$W"' EXIT
cp -r "$HERE/kit" "$W/kit"
sed -i "s#/repo/#$REPO/#" "$W/kit/mango-v4/Cargo.toml" "$W/kit/margin-trade/Cargo.toml"
export CARGO_TARGET_DIR=$W/target CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
cd "$W/kit"
cargo build --offline --quiet -p demo --bin demo
cd "$W"
"$W/target/debug/demo"
T
chmod +x "$D/demo.sh"
