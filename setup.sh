#!/bin/bash
set -e
cd "$(dirname "$0")"
bash ./dump.sh --driver
mkdir -p evidence
