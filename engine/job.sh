#!/bin/bash
# engine/job.sh model 'params-json' bound [extra-json-fields] : run one model in one process, printing stats
SO=/verif/.build/target/debug/libharness.so
P="$2"; [ -z "$P" ] && P='{}'
MC_JOB="{\"model\":\"$1\",\"params\":$P,\"bound\":${3:-0},\"print\":true${4:+,$4}}" exec node -e "process.dlopen({exports:{}}, '$SO')"
