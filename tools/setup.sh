#!/bin/bash
# builds the MIR extractor and the dependencies of the analysed crates
V="$(cd "$(dirname "$0")/.." && pwd)"
T="$(mktemp -d)"
bash "$V/tools/dump.sh" "$T" && rm -f "$T/witness.json" "$T/funspace.json" "$T/state.json" && rmdir "$T"
