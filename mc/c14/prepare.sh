. ./instrument.sh
