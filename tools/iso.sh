#!/bin/bash
# iso.sh id...: runs mk.py for each seed in private copies of /repo and /verif
for id in "$@"; do
B=/tmp/iso/$id; mkdir -p $B; cp -a /repo $B/repo; cp -a /verif $B/verif
unshare -Urm bash -c "mount --bind $B/repo /repo && mount --bind $B/verif /verif && cd /verif/tools/seed/src && git -C /repo checkout -q -- . ; python3 ../mk.py $id" > /tmp/iso/$id.log 2>&1
if grep -q "RESULT $id valid" /tmp/iso/$id.log; then mkdir -p /verif/seeded; cp -a $B/verif/seeded/$id /verif/seeded/; else rm -rf /verif/seeded/$id; fi
tail -1 /tmp/iso/$id.log; grep -E "broken|check C|VIOL|hang" /tmp/iso/$id.log | cut -c1-160 | head -6
rm -rf $B
done
