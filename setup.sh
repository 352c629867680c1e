#!/bin/bash
# Builds the engine (the checks build it themselves if it is missing).
. /verif/env.sh
build_engine && echo built
