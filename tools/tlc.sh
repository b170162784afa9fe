#!/bin/bash
exec java -XX:+UseParallelGC ${TLC_JVM:-} -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tlc2.TLC "$@"
