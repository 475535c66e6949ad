"""Stand-in for eventlet (greenlet is not available under Jython): only what pyogp imports.

The scheduler in api.py runs coroutines on threads, strictly one at a time, in an order that is a pure function of
the program and of the harness's calls, against a virtual clock the harness owns.
"""
