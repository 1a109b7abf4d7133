#!/bin/bash
# dev helper: extract + verify one unit
U=$1; shift
D=/tmp/vxwork/$U; mkdir -p $D
export VX_EXP=${VX_EXP:-/tmp/vxwork/expanded}
/verif/vx/target/debug/vx ${REPO:-/repo} /verif/proofs/$U.vx $D/$U.rs $D/rep.txt $VXF || exit 3
cd $D && verus $U.rs  "$@"
