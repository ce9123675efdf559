#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json, DESIGN.md
cd "$(dirname "$0")/.." || exit 1
python3 tools/gen.py && { cat tools/design_head.md; /opt/venv/bin/python -B tools/design_table.py; python3 tools/seed_table.py < tools/design_tail.md; } > DESIGN.md
