cd /verif/sim && RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh cargo build --offline 2>&1 | grep -E "^error|^warning: unused|never used|Finished" -A12 | head -${1:-80}
