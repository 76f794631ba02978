#!/bin/bash
# Builds everything the checks need; each check also builds what it needs by itself.
exec "$(dirname "$0")/build.sh"
