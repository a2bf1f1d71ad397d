#!/bin/bash
# Nothing to build: checks import calliope from /repo/src. Verify the tools are there and every specification parses.
cd "$(dirname "$0")/../spec" || exit 1
for m in *.tla; do
  java -Xmx512m -cp /opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar tla2sany.SANY "$m" > /tmp/sany.$$ 2>&1 || { cat /tmp/sany.$$; exit 1; }
done
rm -f "/tmp/sany.$$"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src /opt/venv/bin/python -c "import calliope" || exit 1
echo "setup ok"
