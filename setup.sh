#!/bin/sh
# builds the MIR driver and warms the dependency builds of the analysed configurations
cd "$(dirname "$0")" || exit 2
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3 -c "
import sys; sys.path.insert(0,'lib')
import env
env.build_driver()
for c in ('std','arch'):
    print(c, env.dump(c))
"
