. /opt/vp/env.sh
export RUSTC_WRAPPER=/verif/sim/wrap.sh
