#!/bin/bash
# Decides one property on the working tree of /repo: check.sh ID [TIER]
# Exit 0: held on everything explored; 1 and a VIOLATION line: broken;
# 2: no answer (the code under test or the monitors could not be built).
set -u
here=$(cd "$(dirname "$0")" && pwd)
. "$here/env.sh"
id=$1
tier=${2:-${VERIF_TIER:-quick}}
seed=${VERIF_SEED:-1}
b=$here/build
mkdir -p "$b" "$here/evidence" "$here/replays"
case $id in
C05 | C06 | C09 | C13 | C14 | C22 | C23 | C24 | C25 | C27 | C29 | C30)
	# what needs the internal layers is left out, or decided from outside, if
	# these changed in a way that keeps them from being compiled or put together
	if "$here/build.sh" internal "$b" 2>"$b/internal.log" && "$b/semmon-int" -probe 2>>"$b/internal.log"; then
		bin=$b/semmon-int
	else
		"$here/build.sh" plain "$b" || exit 2
		bin=$b/semmon
	fi
	;;
*)
	"$here/build.sh" plain "$b" || exit 2
	bin=$b/semmon
	;;
esac
race=
case $id in
C18 | C19 | C29)
	"$here/build.sh" race "$b" || exit 2
	race=$b/semmon-race
	;;
esac
case $id in
C20 | C26)
	"$here/build.sh" fake "$b" && export SEMMON_FAKE=$b/semmon-fake
	;;
esac
exec "$bin" -check "$id" -tier "$tier" -seed "$seed" -root "$here" ${race:+-racebin "$race"}
