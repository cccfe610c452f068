#!/bin/bash
# developer: ./k.sh crate timeout module::harness... : verdict and times only
c=$1; t=$2; shift 2
for h in "$@"; do timeout $t /verif/kani.sh $c $h::h > /tmp/k.$c.txt 2>&1; echo "$h rc=$? $(grep -aE '^Runtime Symex' /tmp/k.$c.txt | tail -1 | cut -d' ' -f3) $(grep -aE '^Runtime Solver' /tmp/k.$c.txt | cut -d' ' -f3 | tr '\n' ' ') $(grep -aE '^(Verification Time|VERIFICATION)' /tmp/k.$c.txt | tr '\n' ' ')"; grep -aE '^error' -A6 /tmp/k.$c.txt | head -20; grep -qaE "^error" /tmp/k.$c.txt && break; done
