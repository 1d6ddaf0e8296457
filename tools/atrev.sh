#!/bin/bash
# atrev.sh REV PROP [secs]: run a check against another revision in a scratch worktree
R=$1; P=$2; S=${3:-10}
D=/tmp/wt_$$; git -C /repo worktree add -q --detach $D $R
cd ${SV:-/verif} && VERIF_REPO=$D VERIF_BUILD=/tmp/bld_$$ python3 check.py $P --tier quick --secs $S --evidence /tmp/ev_$$ 2>&1 | tail -${4:-6}
git -C /repo worktree remove --force $D; find /tmp/bld_$$ /tmp/ev_$$ -delete 2>/dev/null
