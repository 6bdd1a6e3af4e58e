#!/bin/bash
# usage: check.sh PROPERTY   (VERIF_SEED, VERIF_TIER from the environment)
cd "$(dirname "$0")" && exec python3 -m rdv.check "$1"
