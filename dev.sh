#!/bin/bash
# developer helper: re-extract and verify matching contracts
cd ${REPO:-/tmp/w} && GOFLAGS= /verif/build/extract . > /tmp/ssa.json && cd /verif && python3-vt gov/run.py /tmp/ssa.json "$@"
