#!/bin/bash
# nothing to install: the verifier is python (python3-vt) over rustc's MIR; checks extract the MIR themselves
cd "$(dirname "$0")" && python3-vt -c 'import z3, sys; sys.path.insert(0, "mirv"); import main' && mkdir -p evidence
