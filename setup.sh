#!/bin/bash
# builds the fact exporter and exports the facts of the current tree once (both are cached by content under build/)
D=$(cd "$(dirname "$0")" && pwd)
exec python3 "$D/py/facts.py"
