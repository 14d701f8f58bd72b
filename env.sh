# sourced from run.sh and setup.sh in /verif
seed=${VERIF_SEED:-1}
export CARGO_TARGET_DIR=$PWD/target
export GRIB_VERIF_DEF_DIR=$CARGO_TARGET_DIR/defs-$seed
export RUSTFLAGS="--cfg grib_verif --cap-lints warn"
export CARGO_TERM_COLOR=never
mkdir -p "$GRIB_VERIF_DEF_DIR" evidence replays
/usr/bin/env python3 tools/mkdef.py "$seed" "$GRIB_VERIF_DEF_DIR" || exit 2
