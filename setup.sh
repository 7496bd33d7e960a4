#!/bin/bash
# Builds the extractor and the stand-in headers, and extracts every source file once (a check does the same when it finds nothing cached).
cd "$(dirname "$(readlink -f "$0")")" && python3-vt -c "
import sys; sys.path.insert(0, 'sa')
import front; p = front.load(); print(len(p.functions), 'functions in', len(p.units), 'files')"
