#!/bin/bash
# Builds everything once, from the committed files, offline.
exec "$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)/build.sh" cli page
