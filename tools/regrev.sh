#!/bin/bash
# regrev.sh COMMIT ID: reverts a fix in /repo's working tree, runs check ID,
# keeps the shrunk failure in regress/ID, restores the tree.
c=$1; id=$2
cd /verif
(cd /repo && git show "$c" ${3:+-- $3} | git apply -R -C1) || exit 1
[ -d regress/$id ] && mv regress/$id /tmp/regr.$id
out=$(./run.sh "$id" -noev); rc=$?
[ -d /tmp/regr.$id ] && mv /tmp/regr.$id regress/$id
(cd /repo && git checkout -q -- .)
r=$(echo "$out" | sed -n 's/^VIOLATION.*replay=//p' | head -1)
echo "$c $id rc=$rc $r"; echo "$out" | head -1
if [ $rc = 1 ] && [ -n "$r" ]; then mkdir -p regress/$id; cp "$r" regress/$id/; fi
