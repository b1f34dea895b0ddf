#!/bin/bash
# ns.sh CMD...: run CMD with a private copy of /repo mounted over /repo (the real one stays as it is)
w=$(mktemp -d /tmp/ns.XXXXXX)
cp -a /repo "$w/repo"
unshare -Urm bash -c 'mount --bind "$0/repo" /repo && exec "$@"' "$w" "$@"
rc=$?
case "$w" in /tmp/ns.*) rm -rf "$w";; esac
exit $rc
