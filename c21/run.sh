#!/bin/bash
# run.sh quick|thorough|replay [FILE]
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$here/../env.sh"
exec python3 "$here/programs.py" "$@"
