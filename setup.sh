#!/bin/bash
# Builds the extractor from the committed sources.
cd "$(dirname "$0")" && python3 -c "import check; check.build_tool()"
