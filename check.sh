#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough] [--replay FILE] [--seed N]
exec python3-vt "$(dirname "$(realpath "$0")")/pbt/driver.py" "$@"
