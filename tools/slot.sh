#!/bin/bash
# slot.sh N PATCH|none CMD...: runs CMD with a scratch copy of /repo (patched) mounted over /repo, in a private mount namespace
N=$1; P=$2; shift 2
S=/tmp/kvslot/$N; mkdir -p $S/w $S/e
if [ ! -d $S/repo ]; then cp -a /repo $S/repo; mkdir -p $S/w; cp -a /verif/.build/t $S/w/t; fi
git -C $S/repo fetch -q /repo HEAD 2>/dev/null; git -C $S/repo checkout -q -- . ; git -C $S/repo clean -qfd
git -C $S/repo reset -q --hard FETCH_HEAD
if [ "$P" != none ]; then git -C $S/repo apply "$P" || exit 99; fi
export KV_WORK=$S/w KV_EVIDENCE=$S/e
exec unshare -m bash -c 'mount --bind '$S/repo' /repo && cd /verif && "$@"' x "$@"
