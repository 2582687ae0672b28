#!/bin/bash
# seedcheck.sh ID...: confirms planted changes in a scratch copy: applies, builds, tests pass, demo passes before and fails after
. /opt/vp/env.sh
for id in "$@"; do
  S=/verif/seeded/$id
  W=$(mktemp -d /tmp/seedw.XXXX)
  cp -a /repo $W/repo
  D=$W/demo; mkdir $D; cp -a $S/. $D/; rm -f $D/*.diff $D/meta.json
  ( cd $W/repo && bash $D/demo.sh >$W/before 2>&1 ); b=$?
  if ! git -C $W/repo apply $S/patch.diff; then echo "$id: PATCH DOES NOT APPLY"; continue; fi
  ( cd $W/repo && go build ./... && go test -count=1 ./... >$W/tests 2>&1 ); t=$?
  ( cd $W/repo && bash $D/demo.sh >$W/after 2>&1 ); a=$?
  echo "$id: before=$b tests=$t after=$a  $([ $b = 0 -a $a != 0 ] && echo OK || echo BAD)"
  [ $b = 0 ] || tail -5 $W/before
  [ $t = 0 ] || grep -E "^(---|FAIL|panic)" $W/tests | head
  [ $a != 0 ] || tail -5 $W/after
  rm -rf "$W"
done
