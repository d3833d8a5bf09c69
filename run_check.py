#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [3]
    def go():
        from sa.report import main
        rc[0] = main(sys.argv[1])
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0])
