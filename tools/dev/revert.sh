h=$1; p=$2
d=/tmp/rv/$h
git clone -q /repo $d && cd $d && git config user.email a@b && git config user.name a
if ! git revert -n $h >/tmp/rv/$h.log 2>&1; then echo "$h $p CONFLICT"; rm -rf $d; exit; fi
. /opt/vp/env.sh
go build ./... >/dev/null 2>&1 || { echo "$h $p NOBUILD"; rm -rf $d; exit; }
echo "$h $(/verif/tools/against.sh $d $p)"
rm -rf $d
