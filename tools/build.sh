#!/bin/bash
# Rebuild /repo: the version is read from git tags, so the vcheck-pass tag is put aside meanwhile.
T=$(git -C /repo rev-parse -q --verify refs/tags/vcheck-pass)
[ -n "$T" ] && git -C /repo update-ref -d refs/tags/vcheck-pass
bash /opt/vp/build.sh; R=$?
[ -n "$T" ] && git -C /repo update-ref refs/tags/vcheck-pass "$T"
exit $R
