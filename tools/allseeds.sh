#!/bin/bash
# tools/allseeds.sh: every planted bug against its own property's check
cd /verif
for d in seeded/*/; do tools/seedcheck.sh $(basename $d) | cut -c1-${1:-110}; done
