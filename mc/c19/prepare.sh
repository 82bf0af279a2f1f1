. ./instrument.sh
. ./race.sh
