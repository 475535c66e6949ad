#!/bin/bash
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset JYTHONPATH PYTHONPATH CLASSPATH JYTHON_HOME
exec /usr/bin/java ${JY_JAVA_OPTS} -Xss4m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \
        -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true \
        -Dpython.path=/verif/shim:${PYOGP_REPO:-/repo}:/opt/vp/pyogp/site \
        org.python.util.jython -B "$@"
