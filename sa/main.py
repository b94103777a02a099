import os
import sys
import threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
threading.stack_size(512 * 1024 * 1024)


def go():
    import framework
    go.rc = framework.main(sys.argv)


go.rc = 1
t = threading.Thread(target=go, daemon=True)
t.start()
t.join(float(os.environ.get('VERIF_LIMIT', '840')))
if t.is_alive():
    print('analysis did not finish in time')
    print('VIOLATION property=%s replay=%s' % (sys.argv[1], 'sa/main.py'))
sys.stdout.flush()
os._exit(go.rc)
