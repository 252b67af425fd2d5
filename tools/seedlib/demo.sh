#!/bin/sh
# run in the repository: exit 0 iff the property holds for the case of demo.py
D=$(cd "$(dirname "$0")" && pwd)
exec env LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1 timeout 200 java -Xss8m -XX:TieredStopAtLevel=1 -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true -Dpython.path="$D/stub:$PWD:/opt/vp/pyogp/site" org.python.util.jython -B "$D/demo.py"
