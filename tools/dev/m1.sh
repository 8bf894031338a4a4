# m1.sh FILE SED PROPS...
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/m1.XXXX); git clone -q /repo $d/r; cd $d/r; sed -i "$e" $f; git diff | grep '^[-+]' | grep -v '^+++\|^---'; /verif/tools/against.sh $d/r "$@"; rm -rf $d
