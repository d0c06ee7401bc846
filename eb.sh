cd /verif/engine && CARGO_TARGET_DIR=/verif/.build/engine cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)" -A9
