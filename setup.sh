#!/bin/bash
# Builds the monitors, and the tool under observation with its dependencies.
. "$(dirname "$0")/bin/env.sh"
exec 9>"$BUILD/lock"
flock 9
build_driver || { tail -n 30 "$BUILD/driver.log"; exit 1; }
build_repo || { tail -n 30 "$BUILD/repo.log"; exit 1; }
build_probe || { tail -n 30 "$BUILD/probe.log"; exit 1; }
echo "setup done"
