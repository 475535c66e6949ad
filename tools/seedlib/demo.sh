#!/bin/bash
# Exits 0 if the behaviour demo.py states holds for the pyogp in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset JYTHONPATH PYTHONPATH CLASSPATH JYTHON_HOME
exec timeout 250 /usr/bin/java -Xss4m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \
    -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
    -Dpython.path="$here/lib:$PWD:/opt/vp/pyogp/site" org.python.util.jython -B "$here/demo.py"
