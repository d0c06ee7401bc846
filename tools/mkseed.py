"""mkseed.mk(id, property, edits, demo, needs, breaks): writes /verif/seeded/<id>/.
edits: [(file, old, new)]; demo: the body of a test module placed in the crate (in a scratch copy) as vp_demo.rs."""
import os, subprocess, json, shutil
V = "/verif/seeded"
SH = r'''#!/bin/bash
# Runs demo.rs as a test module inside a scratch copy of the tree.
set -u
here=$(cd "$(dirname "$0")" && pwd)
rm -rf /tmp/vp_demo_ID
mkdir -p /tmp/vp_demo_ID
cp -a Cargo.toml Cargo.lock iris-mpc mpc-net plain-reference /tmp/vp_demo_ID/
cp "$here/demo.rs" /tmp/vp_demo_ID/CRATE/src/vp_demo.rs
printf '\n#[cfg(test)]\nmod vp_demo;\n' >> /tmp/vp_demo_ID/CRATE/src/lib.rs
cd /tmp/vp_demo_ID || exit 9
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_OPT_LEVEL=0 CARGO_PROFILE_DEV_DEBUG=false CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
CARGO_TARGET_DIR=/tmp/vp_demo_ID/target timeout 290 cargo test --offline --locked -p CRATE --lib vp_demo:: > /tmp/vp_demo_ID.log 2>&1
rc=$?
tail -n 15 /tmp/vp_demo_ID.log
grep -q "test result: ok. [1-9]" /tmp/vp_demo_ID.log || rc=1
cd /
rm -rf /tmp/vp_demo_ID
exit $rc
'''
HEAD = r'''#![allow(unused_imports, dead_code)]
use crate::prelude::*;
use crate::traits::share_trait::{ShareTrait, VecShareTrait};
use crate::types::{bit::Bit, int_ring::IntRing2k, ring_element::{RingElement, RingImpl}};
use crate::aby3::utils;
use num_traits::{One, Zero};
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha12Rng;

/// runs `$body` as the three parties and collects the results
macro_rules! parties {
    (|$net:ident, $id:ident| $body:expr) => {{
        let mut tasks = Vec::new();
        for ($id, $net) in TestNetwork3p::new().get_party_networks().into_iter().enumerate() {
            tasks.push(tokio::spawn(async move { $body }));
        }
        let mut out = Vec::new();
        for t in tasks { out.push(t.await.expect("party panicked")); }
        out
    }};
}
'''
def mk(id, prop, edits, demo, needs, breaks, crate="iris-mpc", head=None):
    d = os.path.join(V, id); os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w], check=True)
    for f, o, n in edits:
        p = os.path.join(w, f); s = open(p).read()
        assert s.count(o) == 1, (id, f, s.count(o), o)
        open(p, "w").write(s.replace(o, n))
    open(os.path.join(d, "patch.diff"), "w").write(subprocess.check_output(["git", "-C", w, "diff"], text=True))
    shutil.rmtree(w)
    open(os.path.join(d, "demo.sh"), "w").write(SH.replace("ID", id).replace("CRATE", crate))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    open(os.path.join(d, "demo.rs"), "w").write((HEAD if head is None else head) + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)
