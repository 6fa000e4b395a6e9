#!/bin/bash
# Builds every harness from /repo's current working tree into /verif/build/target.
cd /verif || exit 1
. /verif/bin/env.sh
seed_target
rc=0
: >/verif/build/setup.log
# one by one, as the checks do: together they would be built with other features of the dependencies
for p in h_common h_storage h_metadata h_query h_server; do
    cargo build -q --offline -p "$p" >>/verif/build/setup.log 2>&1 || rc=1
done
tail -n 5 /verif/build/setup.log
exit $rc
